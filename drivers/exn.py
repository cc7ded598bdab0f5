"names of exceptions, as the documented classes a caller would catch"
import builtins
KNOWN = {"PrimalInfeasible", "DualInfeasible", "UnknownInfeasible", "InvalidLicense", "InvalidPosynomial", "InvalidGPConstraint",
         "InvalidSGPConstraint", "UnnecessarySGP", "Infeasible", "UnboundedGP", "DimensionalityError", "UndefinedUnitError"}
def exname(e):
    for c in type(e).__mro__:
        if c.__name__ in KNOWN or getattr(builtins, c.__name__, None) is c: return c.__name__
    return type(e).__name__
