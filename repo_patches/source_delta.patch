From 115dd79038d62af9f9b8331554de12b5cf281e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:35 +0000
Subject: [PATCH 01/77] fix: Microgrid.set_forecaster applies a dict of
 forecasters

A dict was looked up as a ModuleList, which has no set_forecaster, and the
AttributeError was swallowed, so every per-module forecaster was ignored.
---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..c6babbc 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -529,15 +529,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules.to_dict()[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 6ec554879c476b929f09362f331a378280f9f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:52 +0000
Subject: [PATCH 02/77] fix: set_forecaster takes effect on the current state
 at once

The state kept the forecast of the previous forecaster, so the state did not fit
the new observation space until the next step, and the new forecaster was lost
when the module was serialized.
---
 src/pymgrid/microgrid/microgrid.py                          | 4 ++++
 .../modules/base/timeseries/base_timeseries_module.py       | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index c6babbc..57dfae2 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -551,6 +551,10 @@ class Microgrid(yaml.YAMLObject):
                 except AttributeError:
                     pass
 
+        self.microgrid_observation_space = MicrogridSpace(
+            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
+        )
+
     def get_forecast_horizon(self):
         """
         Get the forecast horizon of timeseries modules contained in the microgrid.
diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..a97619f 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -234,7 +234,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._forecast_param = forecaster
+        self._forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._state_dict_keys = self._set_state_dict_keys()
+        self._observation_space = self._get_observation_spaces()
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -242,6 +245,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           self.time_series[self.initial_step:self._final_step, :],
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
+        self._current_forecast = self.forecast()
 
     @property
     def forecast_horizon(self):
-- 
2.43.0


From 9c7396566a651c491e6f651066fbb2a87f05effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:08 +0000
Subject: [PATCH 03/77] fix: loaded time series modules forecast from the step
 they were saved at

The forecast of a deserialized module was the one at its initial step.
---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index a97619f..04b911d 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -349,5 +349,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 3b795a6f767f7ac4d94e49a4da257a8ba36d10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:25 +0000
Subject: [PATCH 04/77] fix: logs of loaded modules can be appended to

A log loaded from YAML held pandas Series, so the first step after loading a
microgrid with a non-empty log raised AttributeError.
---
 src/pymgrid/utils/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..b4126d3 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,5 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
-        return cls(raw)
+            raw = pd.read_csv(raw)
+        return cls({key: list(values) for key, values in raw.items()})
-- 
2.43.0


From 77d091efd819f582e745bfef4328bdde217046be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 05/77] fix: setting forecast_horizon takes effect on the
 current state at once

As with set_forecaster, the state did not fit the new observation space until the
next step, and the implied oracle forecaster was lost in serialization.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 04b911d..0b8c608 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -270,11 +270,13 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         if value > 0 and isinstance(self._forecaster, NoForecaster):
             from warnings import warn
             warn("Setting forecast_horizon requires a non-null forecaster. Implementing OracleForecaster.")
+            self._forecast_param = "oracle"
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
 
         self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def forecaster_increase_uncertainty(self):
-- 
2.43.0


From 71d081aa20b411acfc33879080a88d7cb2d81de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:29 +0000
Subject: [PATCH 06/77] fix: modules of the same class are dumped to separate
 data files

Dumping a microgrid to a file wrote the time series and logs of all modules of a
class to one path, so all but the last module's data were lost.
---
 src/pymgrid/modules/base/base_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..18f2c5b 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -847,7 +847,11 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        if self.name[1] is None:
+            return dump_data(data, dumper_stream, self.yaml_tag)
+
+        # Several modules of the same class may be dumped to the same directory.
+        return dump_data(data, dumper_stream, f'{self.yaml_tag}/{self.name[0]}/{self.name[1]}')
 
     def serializable_state_attributes(self):
         """
-- 
2.43.0


From 05cc2005db841780daced21158f73b7ac802829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:44 +0000
Subject: [PATCH 07/77] fix: reward_shaping_func is serialized with the
 microgrid

A loaded microgrid silently returned unshaped rewards.
---
 src/pymgrid/microgrid/microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 57dfae2..9386241 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -893,6 +893,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -907,6 +908,7 @@ class Microgrid(yaml.YAMLObject):
         return {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
+            'reward_shaping_func': self.reward_shaping_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
             **self._balance_logger.serialize("balance_log")
-- 
2.43.0


From 957abb5f9b3aff5e4e8b0831cb4b62dc6f2496b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 08/77] fix: log index starts at the first logged step

With a trajectory_func (or after changing initial_step) the log was indexed from the
microgrid's initial step, not the step the episode started at: get_log raised
ValueError, or repeated a single row.
---
 src/pymgrid/microgrid/microgrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 9386241..0c4c76f 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,10 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        current_step = self.current_step
+        index = pd.RangeIndex(start=current_step - len(self._balance_logger), stop=current_step)
+
+        df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From e659fdab9834845812e3a326e57c53a7d2ac4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 09/77] fix: stochastic trajectories are never empty and may
 span all steps

StochasticTrajectory could return final == initial, on which reset raised ValueError;
FixedLengthStochasticTrajectory of the full length always raised ValueError and never
reached the last step otherwise.
---
 src/pymgrid/microgrid/trajectory/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..8f01e0d 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -9,7 +9,7 @@ class StochasticTrajectory(BaseTrajectory):
     def __call__(self, initial_step, final_step):
 
         initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        final = np.random.randint(initial + 1, final_step)
 
         return initial, final
 
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From a0fe6392fd5caef578b62f1a81591c21a93ebbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 10/77] fix: rounding does not charge a battery beyond its
 capacity

Charging to full could overshoot max_capacity by a rounding error; max_consumption was
then negative and the next charge failed an assertion.
---
 src/pymgrid/modules/battery_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..ea5a7fb 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,8 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity and np.isclose(self._current_charge, self.max_capacity):
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From 828be6ebdd87cdc8cd5ce09b63b225976788080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:30 +0000
Subject: [PATCH 11/77] fix: battery action bounds are its charge and discharge
 limits

min_act (charging) was derived from max_discharge and max_act (discharging) from
max_charge, so a battery with different limits could not be fully charged or discharged
with normalized actions.
---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index ea5a7fb..71a071d 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -333,11 +333,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From 33772a88acc0645247f950b45cd96f82ad00d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:45 +0000
Subject: [PATCH 12/77] fix: as_sink raises the documented AssertionError for
 modules that are not sinks

It raised a TypeError comparing with NotImplemented.
---
 src/pymgrid/modules/base/base_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 18f2c5b..2dff449 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -258,6 +258,8 @@ class BaseMicrogridModule(yaml.YAMLObject):
         """
 
         assert energy_excess >= 0
+        assert self.is_sink, f'step() was called with negative energy (sink) for module {self} but ' \
+                             f'module is not a sink and can only be called with positive energy.'
 
         if self.module_type[-1] == 'fixed':
             return self.update(None, as_sink=True)
-- 
2.43.0


From 5b919983529e9b32fd6b5b75073e60b31a07b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:54 +0000
Subject: [PATCH 13/77] fix: scalar and list-valued user-defined forecasters
 work over a whole time series

Scalar forecasters raised ValueError within a horizon of the end of the time series and
were told they were forecasting n-1 steps ahead; forecasters returning lists were
accepted but failed on the first forecast.
---
 src/pymgrid/forecast/forecaster.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..225e82d 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,7 +204,7 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
+            return np.array(forecast).reshape(val_c_n.shape)
         return forecast
 
     def _forecast(self, val_c, val_c_n, n):
@@ -361,9 +361,10 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        # Fewer than n true values remain at the end of a time series; the forecast is then padded.
+        if n < len(val_c_n):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n, 1)])
         try:
             shape = (-1, vectorized_output.shape[1])
         except IndexError:
-- 
2.43.0


From b586f1c6b8dde930ce1481a37ed8754a0df9d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:06 +0000
Subject: [PATCH 14/77] fix: reject identically named modules of different
 types

The intended NameError was unreachable; all but one of the identically named modules
were silently left out of the microgrid's steps.
---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..a70952b 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        module_category = (fixed_flex_controllable, source_sink_both)
+        if module_names.setdefault(module_name, module_category) != module_category:
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From 0327a30f141fe4e24aa1a62dce72b9ec2409268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:20 +0000
Subject: [PATCH 15/77] fix: reward shapers sum over all modules of a name

The sum was zero if any one of the modules did not report the value, e.g. the
discharge of two batteries of which one was charging.
---
 src/pymgrid/microgrid/reward_shaping/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..fc2f0ca 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -9,11 +9,7 @@ class BaseRewardShaper(yaml.YAMLObject):
 
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
-        try:
-            module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
-        except KeyError:
-            return 0.0
+        return sum([d.get(module_attr, 0.0) for d in info.get(module_name, [])])
 
     @abstractmethod
     def __call__(self, step_info, cost_info):
-- 
2.43.0


From bebcf3a5863550a5a8c08ad158a0ab0eb0ae61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:54 +0000
Subject: [PATCH 16/77] fix: BatteryDischargeShaper sees default loss load and
 is always in [-1, 1]

It looked for loss load only under the module name used by converted microgrids, and
failed an assertion when batteries discharged more than the load.
---
 .../reward_shaping/battery_discharge_shaper.py         | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..c65df11 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from pymgrid.microgrid.reward_shaping.base import BaseRewardShaper
 
 
@@ -22,13 +20,13 @@ class BatteryDischargeShaper(BaseRewardShaper):
     def __call__(self, step_info, cost_info):
         battery_discharge = self.sum_module_val(step_info, 'battery', 'provided_energy')
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
-        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
+        loss_load = sum(self.sum_module_val(step_info, name, 'provided_energy')
+                        for name in ('unbalanced_energy', 'balancing'))
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
         try:
             percent_battery = (battery_discharge - loss_load) / load
         except ZeroDivisionError:
             return 0.0
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
-        return percent_battery
+        # Batteries may discharge (and loss load may supply) more than the load, e.g. to charge other batteries.
+        return max(-1.0, min(1.0, percent_battery))
-- 
2.43.0


From 469d8fb31baca652c53d945575d6b651268f3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:06 +0000
Subject: [PATCH 17/77] fix: gensets that do not allow abortions can be asked
 to abort

When a status change that could not be aborted completed, next_status disagreed with the
new status and update_status raised 'self.next_status working incorrectly.'.
---
 src/pymgrid/modules/genset_module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..dc90399 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -374,6 +374,11 @@ class GensetModule(BaseMicrogridModule):
             The next status given the current status and the goal status.
 
         """
+        instant = (self.start_up_time if goal_status else self.wind_down_time) == 0
+        if self._current_status != self._goal_status and not (self.allow_abortion or instant):
+            # The status change in progress cannot be aborted.
+            goal_status = self._goal_status
+
         if goal_status:
             if self._current_status:
                 return 1
-- 
2.43.0


From cb25405972f21d1ef8d9a154513e10382002e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 18/77] fix: NonModularMicrogrid.run curtails all pv if none is
 required

A control that met the load exactly without pv failed an assertion whenever pv was
available.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..3709e05 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:                # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 452c898144bf4399f046c00d3ab110c6667a24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 19/77] fix: NonModularMicrogrid without a grid updates its
 battery with actual production

The state of charge followed the requested control, not the energy the battery was able
to charge or discharge, and left its bounds.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 3709e05..7493280 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From 3227076915c74f12d66cb8cdfbadd8e820ead864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:11 +0000
Subject: [PATCH 20/77] fix: NonModularMicrogrid reports the second step's grid
 state after the first step

The state after the first step repeated the grid prices, co2 and status of the first
row of the time series.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 7493280..9ffce88 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From 1d8e59de85301a61719414dd2d8e4606c930aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:03 +0000
Subject: [PATCH 21/77] fix: to_nonmodular converts loads to positive demand

Load modules store their time series as negative values; nonmodular microgrids expect
positive loads, so converted microgrids had negative demand.
---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..accca36 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,9 +77,9 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=-1 * load_module.min_obs[0])
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-- 
2.43.0


From 5e7ef298be5eb05594ea7bbdee23070e4e56cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:15 +0000
Subject: [PATCH 22/77] fix: MPC of modular microgrids accounts for grid
 outages

The grid was assumed to be available throughout the horizon, so MPC planned imports during
outages, which were lost load.
---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..dac98ad 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From 8af808b33b3353589fc56886d12c6e0608688a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:42 +0000
Subject: [PATCH 23/77] fix: normalized state_dict of modules with a single
 state component

A normalized state of length one is a scalar, so Microgrid.state_dict(normalized=True)
raised TypeError with any load or renewable without a forecaster.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 2dff449..bc5e647 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -487,7 +487,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 5acbf3ae27c891ff7beaba430882b79f6020c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:55 +0000
Subject: [PATCH 24/77] fix: environments created from or loaded as a stepped
 microgrid keep its log

Modules kept their logs but the microgrid-level logs were dropped, so reading the log of
such an environment raised ValueError.
---
 src/pymgrid/envs/base/base.py      | 10 +++++++++-
 src/pymgrid/microgrid/microgrid.py |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..2d75d8d 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,5 +1,7 @@
 import pandas as pd
 
+from copy import deepcopy
+
 from gym import Env
 from gym.spaces import Box, Dict, Tuple, flatten_space, flatten
 from abc import abstractmethod
@@ -282,7 +284,13 @@ class BaseMicrogridEnv(Microgrid, Env):
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
         kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
-        return cls(modules.to_tuples(), **kwargs)
+        env = cls(modules.to_tuples(), **kwargs)
+
+        # Modules keep their logs; the microgrid's logs must match them.
+        env._balance_logger = deepcopy(microgrid._balance_logger)
+        env._microgrid_logger = deepcopy(microgrid._microgrid_logger)
+
+        return env
 
     @classmethod
     def from_nonmodular(cls, nonmodular, **kwargs):
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 0c4c76f..3159524 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -895,6 +895,7 @@ class Microgrid(yaml.YAMLObject):
 
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
+        instance._microgrid_logger = instance._microgrid_logger.from_raw(mapping.get("microgrid_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
         instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
@@ -914,7 +915,8 @@ class Microgrid(yaml.YAMLObject):
             'reward_shaping_func': self.reward_shaping_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
-            **self._balance_logger.serialize("balance_log")
+            **self._balance_logger.serialize("balance_log"),
+            **self._microgrid_logger.serialize("microgrid_log")
         }
 
     @classmethod
-- 
2.43.0


From 8de3deec8921ae605ea05af4f2cbab5cc40e7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:21 +0000
Subject: [PATCH 25/77] fix: ContinuousMicrogridEnv acts on the controllable
 modules

The action space was built from fixed modules, which have no actions, so that the environment
could not be constructed with flat spaces and rejected every action otherwise. step() now also
returns observations of the observation space.
---
 src/pymgrid/envs/continuous/continuous.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..9ac4cf1 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,19 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                                 for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+        return unflatten(self._nested_action_space, action) if self._flat_spaces else action
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(self._get_action(action))
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From dd8ca288951f73da8283291dd100b7f0873f14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:35 +0000
Subject: [PATCH 26/77] fix: nested environment observations are members of the
 observation space

---
 src/pymgrid/envs/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 2d75d8d..e158108 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -3,7 +3,7 @@ import pandas as pd
 from copy import deepcopy
 
 from gym import Env
-from gym.spaces import Box, Dict, Tuple, flatten_space, flatten
+from gym.spaces import Box, Dict, Tuple, flatten_space, flatten, unflatten
 from abc import abstractmethod
 
 from pymgrid import NonModularMicrogrid, Microgrid
@@ -221,6 +221,9 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
+        else:
+            # Modules observe scalars if they are one dimensional, and a reset also returns logs.
+            obs = unflatten(self._nested_observation_space, flatten(self._nested_observation_space, obs))
 
         return obs
 
-- 
2.43.0


From 2835c032bc02a7d683afe0b15322d7cd23d42560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 27/77] fix: logs keep one value per step for fields that are
 no longer logged

Reducing a forecast horizon (or removing a forecaster) between steps left the
columns of the entries that disappeared shorter than the log, so that get_log
raised, or repeated a single value in every row.
---
 src/pymgrid/utils/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b4126d3..2501278 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,10 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.keys() - log_dict.keys():
+            # No longer logged, e.g. a forecast beyond a horizon that was reduced.
+            self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 0549a73e2615488a8f4f92cd12d48ee4fa708394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:38 +0000
Subject: [PATCH 28/77] fix: user-defined forecasters work for modules with
 several components

Validating a forecaster of a GridModule compared whole rows of its time series
in a boolean context, so that every user-defined forecaster was rejected.
---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 225e82d..9071640 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -352,7 +352,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(forecaster_output * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From 90eecfa9509ec78c965cf6d52f90a6c767f167f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:01 +0000
Subject: [PATCH 29/77] fix: gensets that do not allow abortions can change
 status

A new request was treated as an abortion and dropped, so that such gensets never
turned on or off unless their start-up or wind-down time was zero.
---
 src/pymgrid/modules/genset_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index dc90399..58b4fbc 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -288,7 +288,9 @@ class GensetModule(BaseMicrogridModule):
 
         instant_up = self.start_up_time == 0 and goal_status == 1
         instant_down = self.wind_down_time == 0 and goal_status == 0
-        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down):
+        in_progress = self._current_status != self._goal_status
+
+        if goal_status != self._goal_status and (self.allow_abortion or not in_progress or instant_up or instant_down):
             self._goal_status = goal_status
 
         finished_change = self._finish_in_progress_change()
-- 
2.43.0


From 165aa3de1d801f9e2ea14b5e4252ff7747865dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 30/77] fix: gensets can sample actions with strict bounds

A genset's action also has a goal status, so that its production alone could not
be normalized and sample_action(strict_bound=True) raised.
---
 src/pymgrid/modules/base/base_module.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index bc5e647..72a4844 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -347,16 +347,22 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         if strict_bound:
             if self.is_sink:
-                min_bound = self._action_space.normalize(-1 * self.max_consumption)
+                min_bound = self._normalize_energy(-1 * self.max_consumption)
                 if np.isnan(min_bound):
                     min_bound = 0
 
             if self.is_source:
-                max_bound = self._action_space.normalize(self.max_production)
+                max_bound = self._normalize_energy(self.max_production)
                 if np.isnan(max_bound):
                     max_bound = 0
         return np.random.rand()*(max_bound-min_bound) + min_bound
 
+    def _normalize_energy(self, energy):
+        # Actions may have components other than energy, e.g. the goal status of a genset.
+        action = self._action_space.unnormalized.low.copy()
+        action[self._energy_pos] = energy
+        return np.atleast_1d(self._action_space.normalize(action))[self._energy_pos]
+
     def to_normalized(self, value, act=False, obs=False):
         """
         Normalize an action or observation.
-- 
2.43.0


From 0fc8f8b273f8ae4fbdbfddcd4d3649c2ab3b5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 31/77] fix: microgrids without time series modules can be
 created

get_attrs raises if no module has the attribute, it does not return an empty series.
---
 src/pymgrid/microgrid/microgrid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 3159524..62a0827 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -675,7 +675,12 @@ class Microgrid(yaml.YAMLObject):
         return self._final_step
 
     def _get_module_final_step(self):
-        final_step = self.modules.get_attrs('final_step', unique=True)
+        try:
+            final_step = self.modules.get_attrs('final_step', unique=True)
+        except AttributeError:
+            # No time series modules
+            return np.inf
+
         try:
             return final_step.item()
         except ValueError:
-- 
2.43.0


From 49052a2ac837bb7eb8a37076350b006b14dd3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 32/77] fix: rule-based control deploys gensets with a minimum
 production

The default priority list was the first of all lists, which shuts down every genset
that can be shut down, so that these were never deployed.
---
 src/pymgrid/algos/rbc/rbc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..64121d3 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -35,7 +35,12 @@ class RuleBasedControl(PriorityListAlgo):
         priority_lists = self.get_priority_lists(remove_redundant_gensets=remove_redundant_gensets)
 
         if priority_list is None:
-            return sorted(priority_lists[0])
+            # Deploy each module once, e.g. a genset by running it and not by shutting it down.
+            deployed = {}
+            for element in sorted(dict.fromkeys(element for pl in priority_lists for element in pl)):
+                deployed.setdefault(element.module, element)
+
+            return list(deployed.values())
 
         if priority_list not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
-- 
2.43.0


From c1cbbf7b3d50ff6c88c3fa812f4ea5d3fc97357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 33/77] fix: rule-based control accepts priority lists that are
 lists

Valid priority lists are tuples; lists of the same elements, as documented, were rejected.
---
 src/pymgrid/algos/rbc/rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index 64121d3..0a7e52a 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -42,7 +42,7 @@ class RuleBasedControl(PriorityListAlgo):
 
             return list(deployed.values())
 
-        if priority_list not in priority_lists:
+        if tuple(priority_list) not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
                              'valid priority lists.')
 
-- 
2.43.0


From 09ccb13271d7bdb2febf714d0434ade12a4d1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 34/77] fix: reward shapers and trajectories without attributes
 can be dumped

object.__getstate__ returns None for them, which yaml cannot represent.
---
 src/pymgrid/microgrid/reward_shaping/base.py | 3 +++
 src/pymgrid/microgrid/trajectory/base.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index fc2f0ca..bdc974e 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -7,6 +7,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     yaml_dumper = yaml.SafeDumper
     yaml_loader = yaml.SafeLoader
 
+    def __getstate__(self):
+        return self.__dict__
+
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
         return sum([d.get(module_attr, 0.0) for d in info.get(module_name, [])])
diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..047bf25 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -8,6 +8,9 @@ class BaseTrajectory(yaml.YAMLObject):
     yaml_dumper = yaml.SafeDumper
     yaml_loader = yaml.SafeLoader
 
+    def __getstate__(self):
+        return self.__dict__
+
     @abstractmethod
     def __call__(self, initial_step, final_step):
         pass
-- 
2.43.0


From 98c905fd10ef32bfa1f41d2944623de5afec4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:44 +0000
Subject: [PATCH 35/77] fix: ContinuousMicrogridEnv can be dumped and loaded

---
 src/pymgrid/envs/continuous/continuous.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 9ac4cf1..764331c 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,3 +1,5 @@
+import yaml
+
 from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
@@ -51,6 +53,10 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
         If None, :attr:`.initial_step` and :attr:`.final_step` are used to define every episode.
 
     """
+    yaml_tag = u"!ContinuousMicrogridEnv"
+    yaml_loader = yaml.SafeLoader
+    yaml_dumper = yaml.SafeDumper
+
     _nested_action_space = None
 
     def _get_nested_action_space(self):
-- 
2.43.0


From 5ac4255d479cdbc87b23f73f42762f5f520a9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:59 +0000
Subject: [PATCH 36/77] fix: data files are read back exactly

pandas' default parser is off by an ulp for some values, so that a loaded microgrid differed from the saved one.
---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..04cb7ee 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -102,7 +102,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 41ae5885ccecdc842a6d8b7584e0d2654b38a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:09 +0000
Subject: [PATCH 37/77] fix: stochastic trajectories can be printed and
 compared

They have no __init__ of their own; object.__init__ has the parameters args and kwargs.
---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 047bf25..d416701 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -17,7 +17,7 @@ class BaseTrajectory(yaml.YAMLObject):
 
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
-        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
+        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
         return f'{self.__class__.__name__}({formatted_params})'
 
     def __eq__(self, other):
-- 
2.43.0


From 313de8c370e237f902a5fa443fd7319980c1e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:33 +0000
Subject: [PATCH 38/77] fix: BatteryDischargeShaper is zero without load
 whatever the type of the load

Dividing by a numpy zero raises no ZeroDivisionError: the shaper returned nan or infinity.
---
 .../microgrid/reward_shaping/battery_discharge_shaper.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index c65df11..80e5b02 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -23,10 +23,10 @@ class BatteryDischargeShaper(BaseRewardShaper):
         loss_load = sum(self.sum_module_val(step_info, name, 'provided_energy')
                         for name in ('unbalanced_energy', 'balancing'))
 
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
+        percent_battery = (battery_discharge - loss_load) / load
+
         # Batteries may discharge (and loss load may supply) more than the load, e.g. to charge other batteries.
         return max(-1.0, min(1.0, percent_battery))
-- 
2.43.0


From 7c3ca9fcd95c9a769b898bbc0f9c5960ed9264e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 39/77] fix: reward_shaping_func is called once per step, after
 all modules have acted

It was also called with the information of only some modules, raising a KeyError e.g. in a function of the loss load.
---
 src/pymgrid/microgrid/microgrid.py  | 7 ++++---
 src/pymgrid/microgrid/utils/step.py | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 62a0827..96ce793 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -256,7 +256,7 @@ class Microgrid(yaml.YAMLObject):
             for module in modules:
                 microgrid_step.append(name, *module.step(0.0, normalized=False))
 
-        fixed_provided, fixed_consumed, _, _ = microgrid_step.balance()
+        fixed_provided, fixed_consumed = microgrid_step.balance()
         log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')
 
         for name, modules in self.controllable.iterdict():
@@ -274,7 +274,7 @@ class Microgrid(yaml.YAMLObject):
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
                 microgrid_step.append(name, *module_step)
 
-        provided, consumed, _, _ = microgrid_step.balance()
+        provided, consumed = microgrid_step.balance()
         difference = provided - consumed                # if difference > 0, have an excess. Try to use flex sinks to dissapate
                                                         # otherwise, insufficient. Use flex sources to make up
 
@@ -313,7 +313,8 @@ class Microgrid(yaml.YAMLObject):
                     microgrid_step.append(name, *module_step)
                     energy_needed -= source_amt
 
-        provided, consumed, reward, shaped_reward = microgrid_step.balance()
+        provided, consumed = microgrid_step.balance()
+        reward, shaped_reward = microgrid_step.reward, microgrid_step.shaped_reward()
         log_dict = self._get_log_dict(provided, consumed, log_dict=log_dict, prefix='overall')
 
         self._balance_logger.log(reward=reward, shaped_reward=shaped_reward, **log_dict)
diff --git a/src/pymgrid/microgrid/utils/step.py b/src/pymgrid/microgrid/utils/step.py
index 17e0419..c2cdf6b 100644
--- a/src/pymgrid/microgrid/utils/step.py
+++ b/src/pymgrid/microgrid/utils/step.py
@@ -7,6 +7,7 @@ class MicrogridStep:
         self.cost_info = cost_info
         self._obs = dict()
         self._reward = 0.0
+        self._shaped_reward = None
         self._done = False
         self._info = dict(absorbed_energy=[], provided_energy=[])
 
@@ -33,7 +34,7 @@ class MicrogridStep:
     def balance(self):
         provided_energy = np.sum(self._info['provided_energy'])
         absorbed_energy = np.sum(self._info['absorbed_energy'])
-        return provided_energy, absorbed_energy, self._reward, self.shaped_reward()
+        return provided_energy, absorbed_energy
 
     def output(self):
         return self._obs, self.shaped_reward(), self._done, self._output_info()
@@ -41,7 +42,9 @@ class MicrogridStep:
     def shaped_reward(self):
         if self._reward_shaping_func is not None:
             assert isinstance(self.cost_info, dict)
-            return self._reward_shaping_func(self._output_info(), self.cost_info)
+            if self._shaped_reward is None:
+                self._shaped_reward = self._reward_shaping_func(self._output_info(), self.cost_info)
+            return self._shaped_reward
 
         return self._reward
 
-- 
2.43.0


From 4f016a935c703063469fd681e5ce10d86e8d6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 40/77] fix: rejected discrete actions are not logged

The log had more actions than steps afterwards and could not be read.
---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From 379bf8cf0841778c63faa796252472e9803e1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:56 +0000
Subject: [PATCH 41/77] fix: environments created from a microgrid with a
 trajectory keep its initial and final steps

---
 src/pymgrid/envs/base/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index e158108..7d9d022 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -285,10 +285,14 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         kwargs['add_unbalanced_module'] = kwargs.pop('add_unbalanced_module', False)
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
-        kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
+        trajectory_func = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
         env = cls(modules.to_tuples(), **kwargs)
 
+        # The modules may be in an episode that is shorter than the microgrid's.
+        env._initial_step, env._final_step = microgrid._initial_step, microgrid._final_step
+        env.trajectory_func = env._check_trajectory_func(trajectory_func)
+
         # Modules keep their logs; the microgrid's logs must match them.
         env._balance_logger = deepcopy(microgrid._balance_logger)
         env._microgrid_logger = deepcopy(microgrid._microgrid_logger)
-- 
2.43.0


From c1ed5843568a82252c1a909b03c0a0ebb44c34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:29 +0000
Subject: [PATCH 42/77] fix: actions of environments created from a stepped
 microgrid are logged at their step

The log had fewer actions than steps and could not be read.
---
 src/pymgrid/envs/base/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 7d9d022..068dafc 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -296,6 +296,7 @@ class BaseMicrogridEnv(Microgrid, Env):
         # Modules keep their logs; the microgrid's logs must match them.
         env._balance_logger = deepcopy(microgrid._balance_logger)
         env._microgrid_logger = deepcopy(microgrid._microgrid_logger)
+        env._microgrid_logger._log_length = len(env._balance_logger)
 
         return env
 
-- 
2.43.0


From 8704a79956e84e0b59de5296cad4c85ad6842181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:48 +0000
Subject: [PATCH 43/77] fix: get_log drops the module number if asked to

The documented drop_singleton_key argument had no effect.
---
 src/pymgrid/microgrid/microgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 96ce793..36a8f0a 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -470,8 +470,8 @@ class Microgrid(yaml.YAMLObject):
         df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-        if drop_singleton_key:
-            df.columns = df.columns.remove_unused_levels()
+        if drop_singleton_key and (df.columns.get_level_values('module_number') == 0).all():
+            df.columns = df.columns.droplevel('module_number')
 
         if as_frame:
             return df
-- 
2.43.0


From 93134003257590df6e2c788846051bc5a050b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 44/77] fix: microgrids without grid and genset run after
 to_nonmodular

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index accca36..a26a21d 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -56,6 +56,8 @@ def check_viability(modular):
 
 
 def finalize_params(params_dict):
+    params_dict['parameters'].setdefault('cost_co2', 0.0)
+    params_dict['df_cost'].setdefault('co2', [])
     params_dict['parameters'] = pd.DataFrame(params_dict['parameters'])
 
 
-- 
2.43.0


From 3c90cfd2de34c281a2b263ebb01ab2dbe8c1abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:31 +0000
Subject: [PATCH 45/77] fix: NonModularMicrogrid runs to the end of its
 training and testing sets

---
 .../_deprecated/non_modular_microgrid.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 9ffce88..a11d4b8 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -748,16 +748,22 @@ class NonModularMicrogrid:
             self.pv = self._pv_train.iloc[self._tracking_timestep, 0]
             self.load = self._load_train.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
-            self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
+                self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
 
         if self._data_set_to_use == 'testing':
             self.pv = self._pv_test.iloc[self._tracking_timestep, 0]
             self.load = self._load_test.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
-            self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
+                self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
         if self._data_set_to_use == 'all':
             self.pv = self._pv_ts.iloc[self._tracking_timestep, 0]
@@ -778,10 +784,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_train.iloc[self._tracking_timestep,0]
                 self.grid.co2 = self._grid_co2_train.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
             if self._data_set_to_use == 'testing':
                 self.grid.status = self._grid_status_test.iloc[self._tracking_timestep, 0]
@@ -789,10 +799,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_test.iloc[self._tracking_timestep, 0]
                 self.grid.co2 = self._grid_co2_test.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
 
             if self._data_set_to_use == 'all':
-- 
2.43.0


From 32ddfa72e57ed5f36087bd811cf3834b71409945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:45 +0000
Subject: [PATCH 46/77] fix: a seeded MicrogridGenerator draws the same data
 files on every file system

---
 src/pymgrid/MicrogridGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/MicrogridGenerator.py b/src/pymgrid/MicrogridGenerator.py
index f24f771..3d15b68 100644
--- a/src/pymgrid/MicrogridGenerator.py
+++ b/src/pymgrid/MicrogridGenerator.py
@@ -129,7 +129,7 @@ class MicrogridGenerator:
         """ Based on a path, and a folder containing data files, return a file chosen randomly."""
         from pathlib import Path
         _path = Path(path)
-        data_files = list(_path.glob("*.csv"))
+        data_files = sorted(_path.glob("*.csv"))
         if not len(data_files):
             raise NameError(f"Unable to find csv data files in {path}")
         return pd.read_csv(np.random.choice(data_files))
-- 
2.43.0


From 9d4d2fef9a7729408d365f2f345b8f135821a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:14 +0000
Subject: [PATCH 47/77] fix: gensets that produce one power only can be
 converted back from non-modular

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index a26a21d..3f94a0a 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -160,7 +160,7 @@ def add_genset_params(genset_module, params_dict):
 
     _add_to_parameters(params_dict,
                        genset_rated_power=genset_rated_power,
-                       genset_pmin=genset_module.running_min_production/genset_rated_power,
+                       genset_pmin=genset_pmax*(genset_module.running_min_production/genset_module.running_max_production),
                        genset_pmax=genset_pmax,
                        fuel_cost=genset_module.genset_cost,
                        genset_co2=genset_module.co2_per_unit)
-- 
2.43.0


From d2a84cbb361a7d08bf49871e9b0365f86eab2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 48/77] fix: to_nonmodular does not reseed the global random
 generator

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 3f94a0a..842d8a3 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -229,9 +229,9 @@ def _add_cost_co2(params_dict, cost_co2):
 
 
 def _add_genset_polynom(params_dict):
-    np.random.seed(0)
+    rng = np.random.RandomState(0)
     warn('Getting genset_polynom parameters randomly')
-    polynom = [np.random.rand() * 10, np.random.rand(), np.random.rand() / 10]
+    polynom = [rng.rand() * 10, rng.rand(), rng.rand() / 10]
 
     to_add = dict(genset_polynom_order= len(polynom))
     to_add.update({f'genset_polynom_{i}': pn for i, pn in enumerate(polynom)})
-- 
2.43.0


From e08a781e04a0f6e8f1a305623f4b760957a51001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:21 +0000
Subject: [PATCH 49/77] fix: MPC counts exports as revenue

The objective charged the export price for exported energy, so MPC never exported to a grid
that pays for it.
---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index dac98ad..e9f017e 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1.0 * export_price.reshape(-1)
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1.0 * export_price.reshape(-1)
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From 97f20cce0172a2ae55174299e05a5c9dca9ba4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:48 +0000
Subject: [PATCH 50/77] fix: MPC of modular microgrids accepts batteries of any
 name

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index e9f017e..32ad8d2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -197,7 +197,7 @@ class ModelPredictiveControl:
         return eta, battery_capacity, fuel_cost, cost_battery_cycle, cost_loss_load, p_genset_min, p_genset_max, cost_co2, genset_co2
 
     def _parse_modular_microgrid(self):
-        battery = self.microgrid.battery.item()
+        battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
 
         eta = battery.efficiency
         battery_capacity = battery.max_capacity
@@ -921,8 +921,8 @@ class ModelPredictiveControl:
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
         try:
-            battery = self.microgrid.battery.item()
-        except AttributeError:
+            battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
+        except KeyError:
             raise ValueError(f"Microgrid {self.microgrid} has no battery.")
         else:
             e_min = battery.min_soc
-- 
2.43.0


From 5c621986e1d38c13425b70f7e5f02dfeb5a1bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 51/77] fix: MPC of modular microgrids charges imports the CO2
 cost of the grid

The mean of the costs of the grid and the genset was used, which also failed without either.
---
 src/pymgrid/algos/mpc/mpc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 32ad8d2..0c25137 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -907,7 +907,7 @@ class ModelPredictiveControl:
             price_import = np.zeros(self.horizon)
             price_export = np.zeros(self.horizon)
             grid_co2_per_kwh = np.zeros(self.horizon)
-            cost_co2 = []
+            cost_co2 = 0.0
 
             grid_max_import, grid_max_export = 0, 0
         else:
@@ -916,7 +916,7 @@ class ModelPredictiveControl:
             price_import = grid.import_price
             price_export = grid.export_price
             grid_co2_per_kwh = grid.co2_per_kwh
-            cost_co2 = [grid.cost_per_unit_co2]
+            cost_co2 = grid.cost_per_unit_co2
 
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
@@ -939,9 +939,6 @@ class ModelPredictiveControl:
         else:
             genset_max_prod = genset.running_max_production
             genset_co2_per_kwh = genset.co2_per_unit
-            cost_co2.append(genset.cost_per_unit_co2)
-
-        cost_co2 = np.mean(cost_co2)
 
         return (
             load_state,
-- 
2.43.0


From 4ec1366e91f123d7737ae2012c54ed33f22783cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:13 +0000
Subject: [PATCH 52/77] fix: MPC of modular microgrids plans with what the
 battery accepts and supplies

It planned to discharge max_discharge, of which the battery supplies only max_discharge * efficiency;
the rest was lost load.
---
 src/pymgrid/algos/mpc/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 0c25137..5308abd 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -927,8 +927,8 @@ class ModelPredictiveControl:
         else:
             e_min = battery.min_soc
             e_max = battery.max_soc
-            battery_max_charge = battery.max_charge
-            battery_max_discharge = battery.max_discharge
+            battery_max_charge = battery.max_charge / battery.efficiency
+            battery_max_discharge = battery.max_discharge * battery.efficiency
 
             soc_0 = battery.soc
 
-- 
2.43.0


From ce8bf07a319318e5fb87c5de7c9fc9a7c8f39e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:29 +0000
Subject: [PATCH 53/77] fix: rule-based control of non-modular microgrids runs
 the genset at its minimum

It asked for twice the minimum if the load was less than that, and for nothing if the other components
covered the rest of the load, which was then lost.
---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..4420d43 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load > 0 or min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 7f98d26168b5af2aeeac2def9d9112bc5eff921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:59 +0000
Subject: [PATCH 54/77] fix: Benchmarks run rule-based control of non-modular
 microgrids

---
 src/pymgrid/algos/Control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..a613905 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,8 +287,8 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
-- 
2.43.0


From 3a5496ea4907ffda3913baf779a790c4254f0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:32 +0000
Subject: [PATCH 55/77] fix: Benchmarks find SampleAverageApproximation

---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index a613905..e17b0d9 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -294,7 +294,7 @@ class Benchmarks:
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
 
     def run_saa_benchmark(self, preset_to_use=85, **kwargs):
-        from pymgrid.algos.saa import SampleAverageApproximation
+        from pymgrid.algos.saa.saa import SampleAverageApproximation
         SAA = SampleAverageApproximation(self.microgrid, preset_to_use=preset_to_use, **kwargs)
         self.saa_output = SAA.run(**kwargs)
         self.has_saa_benchmark = True
-- 
2.43.0


From 08478f8e5998b607363ae67bc4354e90e0fe2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:29 +0000
Subject: [PATCH 56/77] fix: rule-based control of non-modular microgrids
 covers the steps MPC does

It ran one step less, so that the benchmarks could not be described together.
---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 4420d43..ab2ca07 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -188,8 +188,8 @@ class NonModularRuleBasedControl:
         baseline_priority_list_cost = deepcopy(self.microgrid._df_record_cost)
         baseline_priority_list_co2 = deepcopy(self.microgrid._df_record_co2)
 
-        if length is None or length >= self.microgrid._data_length:
-            length = self.microgrid._data_length-1
+        if length is None or length > self.microgrid._data_length:
+            length = self.microgrid._data_length
 
         n = length - self.microgrid.horizon
         print_ratio = n/100
-- 
2.43.0


From 7fa5971e702ca701ca9a446a53bc5f2751793f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:30 +0000
Subject: [PATCH 57/77] fix: SampleAverageApproximation records the state after
 each step

It recorded the load, renewable production and grid status of the step itself.
---
 src/pymgrid/algos/saa/saa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index cd68acd..56f2702 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -142,9 +142,9 @@ class SampleAverageApproximation(SampleGenerator):
             # return horizon_outputs
 
             optimal_output = self.determine_optimal_actions(outputs=horizon_outputs, percentile=optimal_percentile)
-            output.append(optimal_output, actual_load=self.underlying_data.loc[j,'load'],
-                          actual_pv=self.underlying_data.loc[j,'pv'],
-                          actual_grid=self.underlying_data.loc[j,'grid'])
+            output.append(optimal_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
         return output
 
-- 
2.43.0


From 0ab86f189549c0d344499586a6fe2449e0b5a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:31 +0000
Subject: [PATCH 58/77] fix: ControlOutput.to_frame leaves the output as it is

The lists of the output itself were padded with NaN, so totals computed from it afterwards were NaN.
---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index e17b0d9..c97eaec 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -206,7 +206,7 @@ class ControlOutput(dict):
             for k_2, v_2 in v_1.items():
                 if len(v_2) > max_len:
                     max_len = len(v_2)
-                d[(k_1, k_2)] = v_2
+                d[(k_1, k_2)] = list(v_2)
 
         for _, v in d.items():
             if len(v) < max_len:
-- 
2.43.0


From 6be3ba1306d695ee4f14558beec709d1a17e7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:54 +0000
Subject: [PATCH 59/77] fix: ControlOutputs are compared by their total costs

The costs are a dict of lists, of which np.sum is the dict itself: < and > raised TypeError and == compared the lists.
---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index c97eaec..f69c89f 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From 218a7d6ffd9d092b2be3d713934a8a360abc139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:20 +0000
Subject: [PATCH 60/77] fix: pv samples can be pushed towards data of any name

All presets raised KeyError unless the pv series was named 'GH illum (lx)', as microgrids not from the generator do not.
---
 src/pymgrid/utils/DataGenerator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 59083e2..9ecb52f 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -496,7 +496,12 @@ class NoisyPVData:
             stacked_data = self._check_sample(stacked_data, verbose=verbose)
 
             if push_individual_vals:
-                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data['GH illum (lx)']-stacked_data['pv'])
+                if len(self.unmunged_data.columns) != 1:
+                    actual_data = self.unmunged_data['GH illum (lx)']
+                else:
+                    actual_data = self.unmunged_data.iloc[:, 0]
+
+                stacked_data['pv'] += push_individual_ratio*(actual_data-stacked_data['pv'])
 
             return stacked_data
 
-- 
2.43.0


From 1b15d8f01ee09282985ef14e44dfaae474281cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:47 +0000
Subject: [PATCH 61/77] fix: curves of pv maxima can have more than two
 features

All feature functions used the frequency of the last one, and failed an assertion.
---
 src/pymgrid/utils/DataGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 9ecb52f..81fe164 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -147,7 +147,7 @@ class NoisyPVData:
                 self.daily_maxes[name] = np.cos(
                     2 * num * np.pi / 8760. * period_scale * (self.daily_maxes['cumulative_hr'] - 173 * 24))
 
-                def f(x):
+                def f(x, num=num):
                     return np.cos(2 * num * np.pi / 8760. * period_scale * (x - 173 * 24))
 
                 assert all((f(self.daily_maxes['cumulative_hr']) == self.daily_maxes[name])), \
@@ -159,7 +159,7 @@ class NoisyPVData:
                 self.daily_maxes[name] = np.sin(
                     2 * num * np.pi / 8760. * period_scale * (self.daily_maxes['cumulative_hr'] - 173 * 24))
 
-                def f(x):
+                def f(x, num=num):
                     return np.sin(2 * num * np.pi / 8760. * period_scale * (x - 173 * 24))
 
             else:
-- 
2.43.0


From 89377e24c4fbbcb95c36cb2829e339a23c2ba8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:13 +0000
Subject: [PATCH 62/77] fix: NoisyLoadData can be read from a file

len(None) raised TypeError.
---
 src/pymgrid/utils/DataGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 81fe164..849f38a 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -620,7 +620,7 @@ class NoisyLoadData:
         self.data = self.data.iloc[:8760]
         self.unmunged_data = self.unmunged_data.iloc[:8760]
 
-        self.num_hours = len(load_data)
+        self.num_hours = len(self.data)
         self.munged = False
         self.interpolated = False
 
-- 
2.43.0


From 2b20a37cf54c328a4f917448aa13736abb695e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:39 +0000
Subject: [PATCH 63/77] fix: SampleAverageApproximation can use the hundredth
 percentile

A percentile of one is allowed, but was out of bounds.
---
 src/pymgrid/algos/saa/saa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 56f2702..a524bfc 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -94,7 +94,7 @@ class SampleAverageApproximation(SampleGenerator):
         if percentile < 0. or percentile > 1.:
             raise ValueError('percentile must be in [0,1]')
 
-        partition_val = int(np.floor(len(outputs)*percentile))
+        partition_val = min(int(np.floor(len(outputs)*percentile)), len(outputs)-1)
         partition = np.partition(outputs, partition_val)
 
         if verbose:
-- 
2.43.0


From 5c391fb6394da7abd5a3f0adb393f341c341b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:06 +0000
Subject: [PATCH 64/77] fix: SampleAverageApproximation leaves its samples as
 they are

The samples were overwritten with the actual data, so that a second run with the same samples planned with perfect foresight.
---
 src/pymgrid/algos/saa/saa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index a524bfc..10fe899 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -114,6 +114,8 @@ class SampleAverageApproximation(SampleGenerator):
 
         output = ControlOutput(alg_name='saa', empty=True, microgrid=self.microgrid)
 
+        samples = [sample.copy() if isinstance(sample, pd.DataFrame) else sample for sample in samples]
+
         T = min([len(sample) for sample in samples])
         if forecast_steps is None:
             forecast_steps = T-self.microgrid.horizon
-- 
2.43.0


From 5302db90559e8e6f21015038734ea5f86b766151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:33 +0000
Subject: [PATCH 65/77] fix: SampleAverageApproximation runs deterministically
 on its forecast

run_deterministic_on_forecast returned after the first iteration, in which it did nothing unless verbose, and then did not know the next state.
---
 src/pymgrid/algos/saa/saa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 10fe899..42d7652 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -166,10 +166,12 @@ class SampleAverageApproximation(SampleGenerator):
             if verbose:
                 print('iter {}'.format(j))
 
-                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
+            sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
 
-                horizon_output = self.mpc.mpc_single_step(sample, output, j)
+            horizon_output = self.mpc.mpc_single_step(sample, output, j)
 
-                output.append(horizon_output)
+            output.append(horizon_output, actual_load=self.underlying_data.loc[j+1, 'load'],
+                          actual_pv=self.underlying_data.loc[j+1, 'pv'],
+                          actual_grid=self.underlying_data.loc[j+1, 'grid'])
 
-            return output
\ No newline at end of file
+        return output
-- 
2.43.0


From b920db89fbcda031514b8f0579e892799f2704c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 66/77] fix: Microgrid.run rejects incomplete controls before
 any module steps

A control without a value for some controllable module raised ValueError only after other modules had stepped, and a list with
too few values silently left modules behind: from then on modules were at different steps.
---
 src/pymgrid/microgrid/microgrid.py | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 36a8f0a..80ff408 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -250,6 +250,7 @@ class Microgrid(yaml.YAMLObject):
 
         """
         control_copy = control.copy()
+        module_controls = self._pop_module_controls(control_copy)
         microgrid_step = MicrogridStep(reward_shaping_func=self.reward_shaping_func, cost_info=self.get_cost_info())
 
         for name, modules in self.fixed.iterdict():
@@ -260,17 +261,7 @@ class Microgrid(yaml.YAMLObject):
         log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')
 
         for name, modules in self.controllable.iterdict():
-            try:
-                module_controls = control_copy.pop(name)
-            except KeyError:
-                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
-            else:
-                try:
-                    _zip = zip(modules, module_controls)
-                except TypeError:
-                    _zip = zip(modules, [module_controls])
-
-            for module, _control in _zip:
+            for module, _control in zip(modules, module_controls[name]):
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
                 microgrid_step.append(name, *module_step)
 
@@ -325,6 +316,27 @@ class Microgrid(yaml.YAMLObject):
 
         return microgrid_step.output()
 
+    def _pop_module_controls(self, control):
+        module_controls = dict()
+
+        for name, modules in self.controllable.iterdict():
+            try:
+                controls = control.pop(name)
+            except KeyError:
+                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
+
+            try:
+                controls = list(controls)
+            except TypeError:
+                controls = [controls]
+
+            if len(controls) != len(modules):
+                raise ValueError(f'Expected {len(modules)} control(s) for module "{name}", got {len(controls)}.')
+
+            module_controls[name] = controls
+
+        return module_controls
+
     def _get_log_dict(self, provided_energy, absorbed_energy, log_dict=None, prefix=None):
         _log_dict = dict(provided_to_microgrid=provided_energy, absorbed_from_microgrid=absorbed_energy)
         _log_dict = {(prefix + '_' + k if prefix is not None else k): v for k, v in _log_dict.items()}
-- 
2.43.0


From feb8b77ed6d579ecf5dacabaeefd35f4dbb5ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 67/77] fix: the last logged values of a module can be read

logger_last iterated over the keys of the log as pairs.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 72a4844..8604081 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -471,7 +471,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From 51ce9a62dfcaa713125d1ede89ac0c8acf4ffa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 68/77] fix: forecasts follow a time series that is replaced

After setting the time_series of a module, its current forecast was that of the old series, and later ones were clipped to its bounds.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 0b8c608..f916ada 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -158,6 +158,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
+        self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def min_obs(self):
-- 
2.43.0


From 0b17acb363a88f6134e2d927e0a93db5f2d1b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:54 +0000
Subject: [PATCH 69/77] fix: accept any list-like of modules when adding the
 balancing module

A tuple of modules raised an AttributeError unless add_unbalanced_module=False.
---
 src/pymgrid/microgrid/microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 80ff408..f9de678 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -168,7 +168,7 @@ class Microgrid(yaml.YAMLObject):
             raise TypeError("modules must be list-like of modules.")
 
         if add_unbalanced_module:
-            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost))
+            modules = [*modules, self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost)]
 
         return ModuleContainer(modules)
 
-- 
2.43.0


From 4d7eed401c0dfe2f96c9a937f0d53d2abf395066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:56 +0000
Subject: [PATCH 70/77] fix: a converted non-modular microgrid starts from the
 first row of its series

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 842d8a3..0885326 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -85,7 +85,7 @@ def add_load_params(load_module, params_dict):
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-    _add_to_df_status(params_dict, load=round(load_module.current_load, 1))
+    _add_to_df_status(params_dict, load=round(-1 * load_module.time_series[0].item(), 1))
 
 
 def add_pv_params(pv_module, params_dict):
@@ -93,7 +93,7 @@ def add_pv_params(pv_module, params_dict):
     _add_to_architecture(params_dict, 'PV')
     _add_to_parameters(params_dict, PV_rated_power=pv_module.max_act)
     _add_to_df_actions(params_dict, 'pv_consummed','pv_curtailed','pv')
-    _add_to_df_status(params_dict, pv=[pv_module.current_renewable])
+    _add_to_df_status(params_dict, pv=[pv_module.time_series[0].item()])
     _add_to_df_actual_generation(params_dict, 'pv_consummed','pv_curtailed')
     _add_to_control_dict(params_dict, 'pv_consummed', 'pv_curtailed', 'pv')
 
-- 
2.43.0


From 4ac016eff95504006937118820fd814acbaf9dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:13 +0000
Subject: [PATCH 71/77] fix: a converted battery can discharge its charge
 times, not over, the efficiency

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 0885326..40ed7d8 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -115,7 +115,7 @@ def add_battery_params(battery_module, params_dict):
                       capa_to_charge=round((battery_module.max_soc-battery_module.soc) *
                                      battery_module.max_capacity/battery_module.efficiency, 1),
                       capa_to_discharge=round((battery_module.soc-battery_module.min_soc) *
-                                        battery_module.max_capacity/battery_module.efficiency, 1)
+                                        battery_module.max_capacity*battery_module.efficiency, 1)
                       )
     _add_to_df_actual_generation(params_dict, 'battery_charge', 'battery_discharge')
     _add_to_df_cost(params_dict, 'battery')
-- 
2.43.0


From f9ff3be68df912575bf18b42c1096d283425564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 72/77] fix: non-modular microgrids record commands not given
 as zero, not as a dictionary

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index a11d4b8..aef4d02 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -875,7 +875,7 @@ class NonModularMicrogrid:
             if j in control_dict.keys():
                 df[j].append(control_dict[j])
             else:
-                df[j].append({j:0})
+                df[j].append(0)
         #df = df.append(control_dict,ignore_index=True)
 
         return df
-- 
2.43.0


From db567e29a17e12674f74df61ec72f6f22968ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:50 +0000
Subject: [PATCH 73/77] fix: penalty compares only what is both commanded and
 produced

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index aef4d02..fb4b8a0 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1265,7 +1265,7 @@ class NonModularMicrogrid:
     def penalty(self, coef = 1):
         """Penalty that represents discrepancies between control dict and what really happens. """
         penalty = 0
-        for i in self._df_record_control_dict:
+        for i in self._df_record_control_dict.keys() & self._df_record_actual_production.keys():
             penalty += abs(self._df_record_control_dict[i][-1] - self._df_record_actual_production[i][-1])
 
         return penalty*coef
-- 
2.43.0


From 73c2fd135455871be1310b6f7e80f798dcc2f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:30 +0000
Subject: [PATCH 74/77] fix: unnormalized actions may be any numpy number

BaseMicrogridModule.step accepted Python numbers (and numpy.float64, which is
a float) as scalar actions, but rejected numpy integers and numpy.float32 with
"Bad action", unlike the same numbers in an array.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 8604081..83c8a86 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -140,7 +140,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         try:
             denormalized_action = denormalized_action[self._energy_pos]
         except (IndexError, TypeError):
-            if not isinstance(denormalized_action, (float, int)):
+            if not isinstance(denormalized_action, (float, int, np.number)):
                 try:
                     flat_dim = np.product(denormalized_action.shape)
                     assert flat_dim == 0
-- 
2.43.0


From de688180f463f46b86b98dfd0aac8c9dd1f79ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:52 +0000
Subject: [PATCH 75/77] fix: modules with numpy booleans as parameters can be
 dumped

numpy integers and floats were represented, numpy booleans raised a RepresenterError.
---
 src/pymgrid/utils/serialize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 04cb7ee..06e48f0 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -47,6 +47,7 @@ def add_numpy_pandas_representers():
     yaml.SafeDumper.add_multi_representer(np.ndarray, _numpy_arr_representer)
     yaml.SafeDumper.add_multi_representer(np.floating, _numpy_represent_floating)
     yaml.SafeDumper.add_multi_representer(np.integer, _numpy_represent_int)
+    yaml.SafeDumper.add_representer(np.bool_, _numpy_represent_bool)
 
 
 def add_numpy_pandas_constructors():
@@ -62,6 +63,10 @@ def _numpy_represent_int(dumper, data):
     return dumper.represent_int(data.item())
 
 
+def _numpy_represent_bool(dumper, data):
+    return dumper.represent_bool(data.item())
+
+
 def _numpy_arr_representer(dumper, data):
     return _arr_representer(dumper, data, 'NDArray')
 
-- 
2.43.0


From b35bbe1f2a8aa7a607e7dfdac1ee81e61cf73073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:13 +0000
Subject: [PATCH 76/77] fix: log dicts returned earlier do not grow with later
 steps

The dict was a copy, the lists in it were those still being logged to.
---
 src/pymgrid/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 2501278..c153bc4 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -32,7 +32,7 @@ class ModularLogger(UserDict):
         self._log_length += 1
 
     def to_dict(self):
-        return self.data.copy()
+        return {key: list(values) for key, values in self.data.items()}
 
     def raw(self):
         return {k: list(map(float, v)) for k, v in self.data.items()}
-- 
2.43.0


From f919a2ed96be723759cd267ee43f79a1fea41bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:31 +0000
Subject: [PATCH 77/77] fix: GridModule accepts any array-like time series, as
 documented

---
 src/pymgrid/modules/grid_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..27dc782 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -105,6 +105,8 @@ class GridModule(BaseTimeSeriesMicrogridModule):
             raise ValueError('parameter max_import must be non-negative.')
         if max_export < 0:
             raise ValueError('parameter max_export must be non-negative.')
+        if not hasattr(time_series, 'shape'):
+            time_series = np.array(time_series)
         if time_series.shape[1] not in [3, 4]:
             raise ValueError('Time series must be two dimensional with three or four columns.'
                              'See docstring for details.')
-- 
2.43.0

