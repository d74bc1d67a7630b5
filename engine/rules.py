"""Registration of the analyses beside the two products."""
from . import direct, effects

ANALYSES = {"entry": (direct.Entry, {"C23", "C01"}), "protocol": (direct.Protocol, {"C25", "C20", "C29", "C01", "C23", "C24"}),
            "spelling": (direct.Spelling, {"C04", "C11", "C24"}), "serialize": (direct.Serial, {"C22"}),
            "effects": (effects.Effects, {"C28"})}
