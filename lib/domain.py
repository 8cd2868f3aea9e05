"""A model that cannot be evaluated everywhere."""
import numpy as np

import lumos.numpy as lnp
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io


@state_space_io(states=("a", "b"), inputs=("u",), outputs=("c", "d"), con_outputs=())
class Domain(StateSpaceModel):
    """Only defined for positive a and b, and u other than zero."""

    def forward(self, states, inputs, mesh):
        a, b, u = states["a"], states["b"], inputs["u"]
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", a=lnp.sqrt(b), b=1.0 / u + a),
                                     outputs=self.make_outputs_dict(c=lnp.log(a), d=a * b))


@state_space_io(states=("a", "time", "b"), inputs=("u",), outputs=("c", "d"), con_outputs=())
class TimedDomain(StateSpaceModel):
    """The same, with time as a further state."""

    def forward(self, states, inputs, mesh):
        a, b, u = states["a"], states["b"], inputs["u"]
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", a=lnp.sqrt(b), time=1.0 / a, b=1.0 / u + a),
                                     outputs=self.make_outputs_dict(c=lnp.log(a), d=a * b))


def values(a, b, u):
    """states_dot and outputs, as NumPy has it."""
    with np.errstate(all="ignore"):
        a, b, u = (np.asarray(v, float) for v in (a, b, u))
        return np.stack([np.sqrt(b), 1.0 / u + a], axis=-1), np.stack([np.log(a), a * b], axis=-1)


def points(seed, n):
    """n points, about half of which are undefined in some way: states (n, 2), inputs (n, 1)."""
    r = np.random.RandomState(seed % 2**31)
    X, U = r.uniform(0.3, 2.0, (n, 2)), r.uniform(0.3, 2.0, (n, 1))
    for k in range(n):
        kind = r.randint(0, 9)
        if kind == 0:
            X[k, 0] *= -1.0
        elif kind == 1:
            X[k, 1] *= -1.0
        elif kind == 2:
            U[k] = 0.0
        elif kind == 3:
            X[k] *= -1.0
        elif kind == 4:
            X[k, 0] = 0.0
    return X, U
