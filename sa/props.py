"""Property id -> check."""
from report import Check, Broken


def P08():
    import l0
    ck = Check('P08', 'proof', 'each populated slot of the Fp25519 dispatch table equals its algebraic specification over Z/(2^255-19), for all limb values within the operand bounds, all lanes, destination aliasing either operand, and all three instruction-set configurations')
    ck.minimum = 500
    l0.run(ck, 'Fp25519')
    return ck.finish()


def P09():
    import l0
    ck = Check('P09', 'proof', 'each populated slot of the Fp448 dispatch table equals its algebraic specification over Z/(2^448-2^224-1), for all limb values within the operand bounds, all lanes, destination aliasing either operand, and all three instruction-set configurations')
    ck.minimum = 500
    l0.run(ck, 'Fp448')
    return ck.finish()


from light import P01, P03, P04, P05, P06, P23, P24
from scrub import P02, P16
from wholefn import P10, P11, P12, P14, P15, P17, P18, P21, P25, P26, P27, P28

PROPS = {k: v for k, v in list(globals().items()) if k[0] == 'P' and k[1:].isdigit()}
