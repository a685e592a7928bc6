"""C18 with NDEBUG: the same contracts."""
import spec_mutex
TU='mutex_nd'
units=spec_mutex.units
