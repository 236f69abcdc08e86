From 59872c0045b6cbd7a6a3bb3071dc0a637b1b5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 01/24] fix: air pressure in hPa is ten times the value in kPa

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From 62080bf2147b2d39425640367a9633fc76fc0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 02/24] fix: no division by zero in solar_geom when the sun
 only grazes the horizon

---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..f6cd541 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -269,7 +269,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
+        if daylength[i] and sum_flat_potrad > 0:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From 725b178515807ad0f2ae82b3ed41d0dd9557181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 03/24] fix: accept longwave options in any case of letters, as
 disaggregation does

---
 metsim/metsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..fd7d413 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -676,7 +676,10 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            opt = self.params.get(k, None)
+            if k != 'out_precision' and isinstance(opt, str):
+                opt = opt.lower()
+            if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From b7267c9a556c76e6dc34c59e93c8d70c6cf539d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 04/24] fix: read all days of binary forcing for any number of
 variables

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..cce2d20 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -338,7 +338,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From 46e6982d5d9717da003e10699f702e995d45c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 05/24] fix: give each day its own month's parameter, December
 included

---
 metsim/metsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index fd7d413..3fa7733 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -279,8 +279,8 @@ class MetSim(object):
         self.met_data[name] = self.met_data['prec'].copy()
         months = self.met_data['time'].dt.month
         for m in range(12):
-            param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            param = self.domain[name].isel(month=m)
+            locations = {'time': self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From 030ae8e5d82efc498323d067bd0aa4496e67df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 06/24] fix: reject a zero or negative time step

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3fa7733..c08bfcb 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -638,7 +638,8 @@ class MetSim(object):
                 errs.append("Cannot have empty value for {}".format(each))
 
         # Make sure time step divides evenly into a day
-        if (cnst.MIN_PER_DAY % int(self.params.get('time_step', -1)) or
+        if (int(self.params.get('time_step', -1)) < 1 or
+                cnst.MIN_PER_DAY % int(self.params['time_step']) or
                 (int(self.params['time_step']) > (6 * cnst.MIN_PER_HOUR) and
                  int(self.params['time_step']) != cnst.MIN_PER_DAY)):
             errs.append("Time step must be evenly divisible into 1440 "
-- 
2.43.0


From 0dbbc4333692ecd027ae7de81479589dc4699221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 07/24] fix: keep settings and output attributes per MetSim
 instance

---
 metsim/metsim.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index c08bfcb..fe7d5d7 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -28,6 +28,7 @@ output specified.
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import itertools
 import json
 import logging
@@ -180,7 +181,11 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
+        # settings and attributes belong to this instance only
+        self.params = copy.deepcopy(self.params)
         self.params.update(params)
+        self.params['out_vars'] = copy.deepcopy(self.params['out_vars'])
+        self.attrs = copy.deepcopy(attrs)
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
@@ -230,7 +235,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -267,11 +272,11 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                              'long_name': 'UTC time',
                              'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                              'long_name': 'local time at grid location',
                              'standard_name': 'local_time'}
 
@@ -387,7 +392,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -421,18 +426,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -583,8 +588,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
@@ -802,8 +807,7 @@ def wrap_run_cell(func: callable, params: dict,
 
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
-    params['is_worker'] = True
-    ms = MetSim(params, domain_slice=domain_slice)
+    ms = MetSim(dict(params, is_worker=True), domain_slice=domain_slice)
     ms.load_inputs()
     ms.run_slice()
     ms.write_chunk(locks=write_locks)
-- 
2.43.0


From 492a045893d5144195ce4d88200fbbd6a9f4e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 08/24] fix: allow chunking over only some of the dimensions

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index fe7d5d7..3c20c98 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -454,7 +454,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From b19bfbb5708e42686dd5cd680e4d8796227f4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 09/24] fix: report daily passthrough shortwave as supplied

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c20c98..1f77390 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -788,7 +788,11 @@ def wrap_run_cell(func: callable, params: dict,
             calendar=params['calendar'])
     else:
         # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # (passthrough shortwave is a daily average already unless declared
+        # otherwise)
+        if (params['method'] != 'passthrough' or
+                params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From 9931bafdbeae3f37762e1dcc60bbc3e78aad3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 10/24] fix: reading an ini configuration leaves the output
 table untouched

---
 metsim/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index cce2d20..3795e23 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From d387eeb68de147537fdd3e2ad9d64e6cbe495f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 11/24] fix: keep binary forcing_vars of a yaml configuration
 as in ini

---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 3795e23..e24ed9e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -74,7 +74,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From c054cc3f3e64de91abf2d0522ca4845808f1bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 12/24] fix: cap vapor pressure at saturation at the ends of
 the record too

---
 metsim/disaggregate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..7ffbf01 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -99,6 +99,11 @@ def disaggregate(df_daily: pd.DataFrame, params: dict,
     df_disagg['vapor_pressure'] = (df_disagg['vapor_pressure']
                                    .fillna(method='ffill')
                                    .fillna(method='bfill'))
+    # values held beyond the first and last daily value must not exceed
+    # saturation either
+    df_disagg['vapor_pressure'] = np.minimum(
+        df_disagg['vapor_pressure'].values,
+        svp(df_disagg['temp'].values) / cnst.MBAR_PER_BAR)
 
     df_disagg['rel_humid'] = relative_humidity(
         df_disagg['vapor_pressure'].values, df_disagg['temp'].values)
-- 
2.43.0


From e68944aab8daeba41e207c35dc0a7e7e636b0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 13/24] fix: leave the daily table's daylength alone when
 disaggregating passthrough data

---
 metsim/disaggregate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 7ffbf01..a2c2582 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -77,9 +77,11 @@ def disaggregate(df_daily: pd.DataFrame, params: dict,
     ts = int(params['time_step'])
     ### assume passthrough implies shortwave was computed using entire day not just daylight like mtclim uses to derive its shortwave
     if (params['method'] == 'passthrough') & (params.get('sw_averaging', '') != 'daylight'):
-      df_daily['daylength'] = 86400.0
+      daylength = np.full(n_days, 86400.0)
+    else:
+      daylength = df_daily['daylength'].values
     df_disagg['shortwave'] = shortwave(df_daily['shortwave'].values,
-                                       df_daily['daylength'].values,
+                                       daylength,
                                        df_daily.index.dayofyear,
                                        solar_geom['tiny_rad_fract'],
                                        params)
-- 
2.43.0


From 49e2819629cf2ee0d2ec3d8844aee2fa2b80fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 14/24] fix: create the output directory when it does not exist

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 1f77390..d335e9b 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -334,6 +334,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From 07e9b757235cedbd246db67e670cbee1f3c08e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 15/24] fix: blank lines before the first section do not hide
 the config type

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index e24ed9e..fa36355 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -47,7 +47,7 @@ def check_config_type(config_file):
     # Search for first non-comment line
     line = '#'
     with open(config_file, 'r') as f:
-        while line.strip().startswith('#'):
+        while line.strip().startswith('#') or (line and not line.strip()):
             line = f.readline()
     # Strip out any inline comment
     line = line.split('#')[0].strip()
-- 
2.43.0


From 1ad124498ade2450c5b2b4191a9c888ec0344dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 16/24] fix: accept dates written as YYYY-MM-DD in yaml
 configurations

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index fa36355..fd0cb27 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -87,6 +87,11 @@ def read_yaml_config(config_file, opts):
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
 
+    # yaml turns padded ISO dates into date objects, the rest expects text
+    for k in ['start', 'stop']:
+        if k in conf:
+            conf[k] = str(conf[k])
+
     # If the forcing variable is a directory, scan it for files
     if os.path.isdir(conf['forcing']):
         forcing_files = [os.path.join(conf['forcing'], fn) for fn in
-- 
2.43.0


From 35cae15c909f79393642ca14c93b2448e47cdea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 17/24] fix: document the actual default of out_precision

---
 docs/configuration.rst     | 2 +-
 docs/configuration_ini.rst | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/configuration.rst b/docs/configuration.rst
index 7adc720..07d12a4 100644
--- a/docs/configuration.rst
+++ b/docs/configuration.rst
@@ -46,7 +46,7 @@ DayMet, PRISM, or GridMET). Defaults to ``mtclim``.
 ``out_prefix :: str``: The output file base name. Defaults to ``forcing``.
 
 ``out_precision :: str``: Precision to use when writing output.  Defaults to
-``f8``.  Can be either ``f4`` or ``f8``.
+``f4``.  Can be either ``f4`` or ``f8``.
 
 ``time_grouper :: str``: Whether to chunk up the timeseries into pieces for
 processing. This option is useful to set for when you are limited on
diff --git a/docs/configuration_ini.rst b/docs/configuration_ini.rst
index 8c507b7..e475c0b 100644
--- a/docs/configuration_ini.rst
+++ b/docs/configuration_ini.rst
@@ -47,7 +47,7 @@ the ``forcing`` entry.  Can be one of the following: ``ascii``, ``binary``,
 ``out_prefix :: str``: The output file base name. Defaults to ``forcing``.
 
 ``out_precision :: str``: Precision to use when writing output.  Defaults to
-``f8``.  Can be either ``f4`` or ``f8``.
+``f4``.  Can be either ``f4`` or ``f8``.
 
 ``time_grouper :: str``: Whether to chunk up the timeseries into pieces for
 processing. This option is useful to set for when you are limited on
-- 
2.43.0


From 1c95be17582cae56b5730d67b480c895496099b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 18/24] fix: output frequencies finer than the time step no
 longer fail on empty periods

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index d335e9b..1dd8573 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -560,7 +560,8 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            # a frequency finer than the time step leaves periods empty
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
-- 
2.43.0


From d8e91ccb366d1a088ba9ed47e4fa90801b3a4a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 19/24] fix: files of a sub-daily output frequency no longer
 overwrite each other

---
 metsim/metsim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 1dd8573..f3b244e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -698,8 +698,14 @@ class MetSim(object):
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
-        return template.format(s.year, s.month, s.day,
-                               e.year, e.month, e.day,)
+        suffix = template.format(s.year, s.month, s.day,
+                                 e.year, e.month, e.day,)
+        freq = pd.tseries.frequencies.to_offset(self.params['out_freq'] or None)
+        if isinstance(freq, pd.offsets.Tick) and freq < pd.offsets.Day(1):
+            # several files per day need the time of day to tell them apart
+            suffix += '_{:02d}{:02d}-{:02d}{:02d}'.format(s.hour, s.minute,
+                                                          e.hour, e.minute)
+        return suffix
 
 
 def wrap_run_cell(func: callable, params: dict,
-- 
2.43.0


From b62ceee43f0421382be43a01ce0472403602d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 20/24] fix: forcing stamped at the last second of a day stays
 on its own day

---
 metsim/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index fd0cb27..dab24df 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -299,8 +299,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
     if 'time' in ds.coords:
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
             ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+        ds['time'] = ds.indexes['time'].floor('D')
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
-- 
2.43.0


From 95524e90c1a4d12e141f1712382a88befa03c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 21/24] fix: an output of a yaml configuration without out_name
 is written under its own name

---
 metsim/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index dab24df..954f530 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -83,6 +83,8 @@ def read_yaml_config(config_file, opts):
     for k, v in conf['out_vars'].items():
         if 'units' not in v:
             v['units'] = metsim.available_outputs[k]['units']
+        if 'out_name' not in v:
+            v['out_name'] = k
     conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
-- 
2.43.0


From 41bde49eeb4b201a570bf9b6f1ea8ad8ab0eb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 22/24] fix: forcing given as a dataset is cut to the cells of
 the domain, so it can be run in chunks

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index 954f530..b57ac1b 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -321,6 +321,11 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())})
+
     if start is not None and stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From 8e48daa745778af420c23d8684c42b9a37828e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 23/24] fix: chunks run by several threads no longer enter the
 netCDF library at once

---
 metsim/metsim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f3b244e..a618cac 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -46,6 +46,7 @@ import xarray as xr
 
 import dask
 from dask.diagnostics import ProgressBar
+from dask.utils import SerializableLock
 from netCDF4 import Dataset
 from cftime import date2num
 from datetime import datetime
@@ -61,6 +62,7 @@ from metsim.physics import solar_geom
 from metsim.units import converters
 
 NO_SLICE = {}
+NETCDF_LOCK = SerializableLock()
 DASK_CORE_SCHEDULERS = ['multiprocessing', 'threading', 'synchronous',
                         'processes', 'threads', 'single-threaded', 'sync']
 
@@ -820,10 +822,13 @@ def wrap_run_cell(func: callable, params: dict,
 
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
-    ms = MetSim(dict(params, is_worker=True), domain_slice=domain_slice)
-    ms.load_inputs()
+    # the netCDF library must not be entered by two threads at a time
+    with NETCDF_LOCK:
+        ms = MetSim(dict(params, is_worker=True), domain_slice=domain_slice)
+        ms.load_inputs()
     ms.run_slice()
-    ms.write_chunk(locks=write_locks)
+    with NETCDF_LOCK:
+        ms.write_chunk(locks=write_locks)
 
 
 def chunk_domain(chunks, dims):
-- 
2.43.0


From 81fc9efc80890446630e62fbf3da6dacc7ad7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 24/24] fix: process-pool schedulers get a lock that can be
 sent to the workers

---
 metsim/metsim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index a618cac..60d4567 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -32,6 +32,7 @@ import copy
 import itertools
 import json
 import logging
+import multiprocessing
 import os
 import sys
 import warnings
@@ -338,10 +339,15 @@ class MetSim(object):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
+        get_lock = get_write_lock
+        if self.params['scheduler'] in ['multiprocessing', 'processes']:
+            # a plain multiprocessing lock cannot be sent to the workers
+            manager = multiprocessing.Manager()
+            get_lock = lambda filename: manager.Lock()
         for times in self._times:
             filename = self._get_output_filename(times)
             self.setup_netcdf_output(filename, times)
-            write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
+            write_locks[filename] = combine_locks([NETCDFC_LOCK, get_lock(filename)])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
-- 
2.43.0

