"""Which lemmas decide which property."""
from .framework import prop

FIELD_OUT = "operand magnitudes above those stated in the lemmas (outside the documented preconditions); debug-assertion-only code"
prop("C01", ["F.mul", "F.sqr", "F.mulops"], outside=FIELD_OUT)
prop("C02", ["F.add", "F.neg", "F.mulint", "F.normalize", "F.normalize_var", "F.normalize_weak", "F.normalizes_to_zero", "F.normalizes_to_zero_var",
             "F.eq", "F.cmp", "F.pred"], outside=FIELD_OUT)
prop("C03", ["F.set_b32", "F.b32", "F.storage"], outside="the contents of the element after a rejected load")
prop("C04", ["F.mul", "F.sqr", "F.inv", "F.sqrt"], outside=FIELD_OUT)
prop("C05", ["S.mul", "S.sqr", "S.mulops"])
prop("C06", ["S.add", "S.neg", "S.pred", "S.bits", "S.shr", "S.caddbit", "S.setint"], outside="widths of 0 or 32 bits; shifts outside 1..15 (outside the documented range)")
prop("C07", ["S.setb32", "S.b32"])
prop("C08", ["S.mul", "S.sqr", "S.mulops", "S.inv"])
prop("C09", ["G.double", "G.add", "G.add_ge_var", "G.add_ge", "G.add_zinv"])
prop("C10", ["G.convert", "G.tests", "G.lift"])
prop("C11", ["T.pre", "T.gen", "T.run", "T.boxed", "T.boxed_g"], outside="run-time tables of sizes other than 1 to 8, 16 and (for the generator) 16384")
prop("C12", ["W.var.5"] + ["W.var.16.%d" % k for k in range(6)] + ["M.var", "T.pre"], outside="the point at infinity as P (outside the documented domain)")
prop("C13", ["W.const", "M.const"], outside="the point at infinity as P (outside the documented domain)")
prop("C14", ["M.gen", "T.gen", "K.pkfromsk"])
prop("C15", ["E.verify"])
prop("C16", ["E.recover"])
prop("C17", ["E.sign"], outside="the two nonces +-k with x(kG) = n")
prop("C18", ["K.nonce"], outside="HMAC-DRBG-SHA256 itself (an uninterpreted deterministic generator: what it is seeded with and which outputs are used is decided); more rejected candidates than the bound")
prop("C19", ["K.pkparse", "K.pkslice"])
prop("C20", ["K.pkser", "K.pkparse"])
prop("C21", ["K.sk"])
prop("C22", ["K.sig"])
STRICT_Q = ["D.strict." + x for x in ("a", "b", "c", "d", "e", "l1", "l2", "l3", "s0", "s1")]
LAX_Q = ["D.lax." + x for x in ("s0", "s1", "s2", "s3", "c", "b", "a")]
prop("C23", STRICT_Q, ["D.strict.S%d" % k for k in range(6)] + ["D.strict.L%d" % n for n in range(31, 76, 4)] + ["D.strict.%d" % n for n in range(28, 18, -1)],
     outside="longer inputs except those with the listed headers")
prop("C24", LAX_Q, ["D.lax.12", "D.lax.11"] + ["D.lax.S%d" % k for k in range(10)], outside="longer inputs except those with the listed headers")
prop("C25", ["D.ser.B%d" % k for k in range(8)])
prop("C26", ["K.norm"])
prop("C27", ["K.rid"])
prop("C28", ["K.sktweak"])
prop("C29", ["K.pktweak", "K.combine"], outside="combining more than the bounded number of keys")
prop("C30", ["K.ecdh"], outside="the hash function itself (uninterpreted: what it is given is decided)")
prop("C31", ["K.clear"], outside="copies made elsewhere by the compiler")
prop("C33", ["K.serde"], outside="the base64 crate's and serde's own code")
prop("C34", ["X.scalar", "X.field", "X.points", "X.gen", "X.const", "X.sign", "X.pub", "X.ecdh", "M.const", "W.const"], traces=True,
     note="A leak is a branch, an address or a variable-time call whose condition or address the solver can make differ for two secrets with equal public inputs; it is confirmed by "
          "comparing valgrind (lackey) instruction and address traces of the compiled code. Branches that only choose between values already computed count as selections.",
     outside="what the compiler makes of a selection on other targets or options than the replay build (x86-64, opt-level 3); the time an instruction takes; the hash, HMAC-DRBG, subtle and "
             "generic-array crates' own code; parsing, printing and comparing secret keys; rejected nonces (only the first draw being usable is covered)")
prop("C35", ["K.hex"])
from .framework import PROPS
OPS = ["P.decoder", "P.cleared"] + ["W.var.16.%d" % k for k in range(6)]
for _id in ["C%02d" % i for i in range(1, 32) if i != 11] + ["C33", "C35"]:
    OPS += [n for n in PROPS[_id]["quick"] if n not in OPS and not n.startswith("T.")]
prop("C32", OPS + ["T.run"], [n for i in ("C23", "C24") for n in PROPS[i]["thorough"]], panics=True,
     note="Only the obligations about panics count here (index, slice and arithmetic-overflow assertions, calls of panicking functions, undefined outcomes); the results "
          "other lemmas establish serve as contracts.",
     outside="debug-assertion-only code; non-termination; scalars not below n and points off the curve assembled by hand from raw words; SignatureArray::new with a size above 72; "
             "the building of tables at run time")
