"""C04."""
from drivers.energy import run
