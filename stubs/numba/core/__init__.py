from numba import extending
