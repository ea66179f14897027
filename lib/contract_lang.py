"""Data types the contract files are written in."""

class Ty:
    """A struct/enum of the crate: the fields the contracts talk about, and spec functions."""
    def __init__(self, name, fields, specs="", generics="<T: Float>", self_ty=None):
        self.name, self.fields, self.specs = name, fields, specs
        self.generics, self.self_ty = generics, self_ty or (name + "<T>")

class Fn:
    """Contract of one function.  key: Type::name | Trait::name | name.
    requires/ensures: list of (tags, text); tags is a string of property ids or 'base'.
    In the text: $1, $2 .. the parameters, $r the result, $pre/$post the state before/after.
    loop: invariant template ({i} index, {hi} bound, {it} iterator), optional loop_dec.
    begin/end: proof text at the start / before returning."""
    def __init__(self, key, requires=(), ensures=(), loop=None, loop_dec=None, begin="", end="",
                 optional=False, attrs="", loop_body="", loop_end="", carried={}):
        self.key, self.requires, self.ensures = key, list(requires), list(ensures)
        self.loop, self.loop_dec, self.begin, self.end = loop, loop_dec, begin, end
        self.optional, self.attrs, self.loop_body, self.loop_end = optional, attrs, loop_body, loop_end
        self.carried = carried

class Prop:
    """One property: the types and functions it depends on, plus its theorems (Verus text)."""
    def __init__(self, pid, types, fns, theorems="", nl=False, traits=("Processor",), broadcast="grp", rlimit=20, prelude=''):
        self.pid, self.types, self.fns, self.theorems = pid, types, fns, theorems
        self.nl, self.traits, self.broadcast, self.rlimit = nl, traits, broadcast, rlimit
        self.prelude = prelude
