"""Cross-covariance integrals of the causal model."""
import lab as B
import numpy as np
from props import c08
from props.models import gpcm_model
from symx.explore import Harness

HARNESSES = c08.harnesses(True)
