from .execu import Exec
from .expr import ExprMixin
from .calls import CallMixin
from .stmts import StmtMixin
from .auto import AutoMixin


class Engine(AutoMixin, StmtMixin, CallMixin, ExprMixin, Exec):
    pass
