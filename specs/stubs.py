"""Symbolic antenna arrays: the public interface of an array, nothing more."""
from sionna.phy.channel.tr38811.antenna import PanelArray


class SymElement:
    """antenna element with an arbitrary field pattern (elementwise in both angles)"""
    def __init__(self, name):
        self.name = name

    def field(self, theta, phi):
        return (uf(self.name + '.F_theta', theta, phi), uf(self.name + '.F_phi', theta, phi))


class SymArray(PanelArray):
    def __init__(self, name, pol, num_ant, ant_pos, ind1, ind2, lambda_0, second=None):
        self.name = name
        self._pol1 = SymElement(name + '.pol1')
        self._pol2 = SymElement(name + '.pol2')
        self._polarization = pol
        self._p_num_ant = num_ant
        self._p_ant_pos = ant_pos
        self._p_ind1 = ind1
        self._p_ind2 = ind2
        self._lambda_0 = lambda_0
        self.second = second
        # the same values under the attribute names of the real class
        self._num_ant = num_ant
        self._ant_pos = ant_pos
        self._ant_ind_pol1 = ind1
        self._ant_ind_pol2 = ind2
        self._ant_pol1 = self._pol1
        self._ant_pol2 = self._pol2

    @property
    def num_ant(self):
        return self._p_num_ant

    @property
    def ant_pos(self):
        return self._p_ant_pos

    @property
    def polarization(self):
        return self._polarization

    @property
    def ant_pol1(self):
        return self._pol1

    @property
    def ant_pol2(self):
        return self._pol2

    @property
    def ant_ind_pol1(self):
        return self._p_ind1

    @property
    def ant_ind_pol2(self):
        return self._p_ind2


class Record:
    """plain record of the given values"""
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
