"""Stand-in: only `display`, which records what would be shown."""
from IPython import display
