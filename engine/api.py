"""What contract files import."""
from .values import EV, PAT, SCHEMA
from .contracts import Contract
