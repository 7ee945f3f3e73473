"""Stand-in for IPython (not installed here)."""
from IPython import display
