"""Reference lookup of the TR 38.811 parameter tables shipped with the package."""
import json
import tensorflow as tf
from importlib_resources import files
from sionna.phy.channel.tr38811 import models

PREFIX = {'DenseUrbanScenario': 'Dense_Urban', 'UrbanScenario': 'Urban', 'SubUrbanScenario': 'Sub_Urban'}


def table(cls, state, direction, fc):
    band = 'S' if fc <= 10e9 else 'Ka'
    link = 'UL' if direction == 'uplink' else 'DL'
    name = PREFIX[cls] + '_' + state + '_' + band + '_band_' + link + '.json'
    with open(files(models).joinpath(name)) as f:
        return json.load(f)


def key(name, elevation):
    if name in ('CPhiNLoS', 'CThetaNLoS'):
        return name
    return name + '_' + str(round(elevation / 10.) * 10)


def entry(cls, state, direction, fc, elevation, name):
    return table(cls, state, direction, fc)[key(name, elevation)]


def param(cls, direction, fc, elevation, los, name):
    """value of a parameter for every link: LoS table where in LoS, NLoS table elsewhere"""
    return tf.where(los, entry(cls, 'LOS', direction, fc, elevation, name),
                    entry(cls, 'NLOS', direction, fc, elevation, name))
