"""The slot invoker for compilers without variadic templates, for 0 to 9 arguments: the contract of spec_args on the other implementation."""
from spec_base import *
from spec_args import verify_entry
TU='args03'
def units(cx): return [Unit('slot_invoker (C++03) '+fn[4:],{'C02','C15'},lambda opts,fn=fn: verify_entry(cx,fn,opts,True)) for fn in cx.M.funcs if fn.startswith('inv_')]
