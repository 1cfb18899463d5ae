"""Modules as a user would write them against the base classes (C30)."""
import numpy as np
import yaml

from pymgrid.modules.base import BaseMicrogridModule, BaseTimeSeriesMicrogridModule


class MustTake(BaseTimeSeriesMicrogridModule):
    """Fixed source: what its series says comes in, wanted or not."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserMustTake', yaml.SafeLoader, yaml.SafeDumper
    module_type = ('must_take', 'fixed')
    state_components = np.array(['must_take'], dtype=object)

    def __init__(self, time_series, cost=0.0, forecaster=None, forecast_horizon=3, raise_errors=False):
        self.cost = cost
        super().__init__(time_series, raise_errors, forecaster=forecaster, forecast_horizon=forecast_horizon, provided_energy_name='taken', absorbed_energy_name=None)

    def update(self, external_energy_change, as_source=False, as_sink=False):
        assert as_source
        e = self.max_production
        return -self.cost * e, self._done(), {'provided_energy': e}

    @property
    def max_production(self):
        return self._time_series[self._current_step].item()

    @property
    def is_source(self):
        return True


class ControllableLoad(BaseTimeSeriesMicrogridModule):
    """Controllable sink: takes what it is told to, up to the current value of its series."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserControllableLoad', yaml.SafeLoader, yaml.SafeDumper
    module_type = ('controllable_load', 'controllable')
    state_components = np.array(['room'], dtype=object)

    def __init__(self, time_series, benefit=0.0, forecaster=None, forecast_horizon=3, raise_errors=False):
        self.benefit = benefit
        super().__init__(time_series, raise_errors, forecaster=forecaster, forecast_horizon=forecast_horizon, provided_energy_name=None, absorbed_energy_name='served')

    def update(self, external_energy_change, as_source=False, as_sink=False):
        assert as_sink
        return self.benefit * external_energy_change, self._done(), {'absorbed_energy': external_energy_change}

    @property
    def max_consumption(self):
        return -self._time_series[self._current_step].item()

    @property
    def is_sink(self):
        return True


class Plain(BaseMicrogridModule):
    """A module without series, with a limit each way and a level that moves with what it does."""
    heat = 2.0

    def __init__(self, source_limit=0.0, sink_limit=0.0, cost=0.0, level=0.0, room=np.inf, raise_errors=False):
        self.source_limit, self.sink_limit, self.cost = source_limit, sink_limit, cost
        self.room, self.level = room, level
        super().__init__(raise_errors)

    def update(self, external_energy_change, as_source=False, as_sink=False):
        assert as_source + as_sink == 1
        e = external_energy_change
        self.level = min(max(self.level + (-e if as_source else e), 0.0 if np.isfinite(self.room) else -np.inf), self.room)
        return -self.cost * e, False, {'provided_energy' if as_source else 'absorbed_energy': e, 'heat': self.heat * e}

    def serializable_state_attributes(self):
        return ['_current_step', 'level']

    def _state_dict(self):
        return dict(level=self.level) if np.isfinite(self.room) else dict()

    @property
    def state(self):
        return np.array(list(self._state_dict().values()), dtype=float)

    @property
    def min_obs(self):
        return np.zeros(1) if np.isfinite(self.room) else np.array([])

    @property
    def max_obs(self):
        return np.array([self.room]) if np.isfinite(self.room) else np.array([])

    @property
    def min_act(self):
        return -self.sink_limit if self.is_sink else 0.0

    @property
    def max_act(self):
        return self.source_limit if self.is_source else 0.0

    @property
    def max_production(self):
        return min(self.source_limit, self.level) if np.isfinite(self.room) else self.source_limit

    @property
    def max_consumption(self):
        return min(self.sink_limit, self.room - self.level)

    @property
    def production_marginal_cost(self):
        return self.cost

    @property
    def is_source(self):
        return self.source_limit is not None and self.kind != 'sink'

    @property
    def is_sink(self):
        return self.kind != 'source'


class Hydro(Plain):
    """Controllable source that empties a reservoir."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserHydro', yaml.SafeLoader, yaml.SafeDumper
    module_type, kind = ('hydro', 'controllable'), 'source'


class RunOfRiver(Plain):
    """Controllable source that always runs at its least power at least."""
    module_type, kind = ('river', 'controllable'), 'source'
    yaml_tag, yaml_loader, yaml_dumper = '!UserRunOfRiver', yaml.SafeLoader, yaml.SafeDumper

    def __init__(self, least=0.0, source_limit=0.0, cost=0.0, raise_errors=False):
        self.least = least
        super().__init__(source_limit=source_limit, cost=cost, raise_errors=raise_errors)

    def serializable_state_attributes(self):
        return ['_current_step', 'level']

    @property
    def min_production(self):
        return self.least

    @property
    def max_production(self):
        return self.source_limit


class Tank(Plain):
    """Controllable storage."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserTank', yaml.SafeLoader, yaml.SafeDumper
    module_type, kind = ('tank', 'controllable'), 'both'


class Heater(Plain):
    """Flexible sink: takes excess up to its power."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserHeater', yaml.SafeLoader, yaml.SafeDumper
    module_type, kind = ('heater', 'flex'), 'sink'


class Backup(Plain):
    """Flexible source: covers a deficit up to its power."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserBackup', yaml.SafeLoader, yaml.SafeDumper
    module_type, kind = ('backup', 'flex'), 'source'


class Flywheel(Plain):
    """Flexible source and sink with a level."""
    yaml_tag, yaml_loader, yaml_dumper = '!UserFlywheel', yaml.SafeLoader, yaml.SafeDumper
    module_type, kind = ('flywheel', 'flex'), 'both'
