"""All specs."""
from vlib import specs_a, specs_b, specs_c, specs_d, specs_e      # noqa: F401
