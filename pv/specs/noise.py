"""Quantization noise and the noise gain of a digital filter."""
import numpy as np


def noise_gain(kernel):
    if np.sum(kernel) == 1:
        return np.sqrt(np.sum(kernel * kernel))
    raise ValueError("kernel must sum to one")


def quantization_noise(pe_range, bit_depth):
    return pe_range / (2.0 ** bit_depth - 1) / np.sqrt(12)
