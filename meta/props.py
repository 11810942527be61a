#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
FE="bandersnatch/fieldElements/"
p("F01","Wide-integer arithmetic is exact for every input and aliasing",
 "The 256-bit and 512-bit unsigned integer operations (addition, subtraction, increment, decrement, multiplication, squaring, multiplication by a machine word, shifts, comparison, zero/one tests, bit length, widening and narrowing) return exactly the mathematical result, wrapping modulo 2^256 only where documented and reporting the carry, borrow or shifted-out word exactly. This holds also when the result overwrites an operand or both operands are the same object, and operands that are not results are never modified. The narrowing 512-to-256-bit copy refuses (panics) exactly the values that do not fit.",
 ["inputs"],"all values of all operands (2^256 each), all aliasing patterns of the pointer arguments, all shift amounts 0..64",
 "Tests sample random operands, on which a wrong carry into a high limb or a boundary value (all-ones limbs) has probability about 2^-64; package tests do not even run where the package is excluded.",
 [FE+"uint256.go"],[("Uint256/Uint512 methods",FE+"uint256.go:237-590")])
p("F02","Modular reductions keep the promised residue and range for every input",
 "For every input in the range an operation documents (any 256-bit value, below twice the base field size, below 2^256 minus the base field size, or fully reduced), the modular integer operations (add, subtract, double, negate, multiply, square, 512-bit reduction, and each final reduction) return a value congruent to the exact integer result modulo the base field size and inside the range they promise. Arguments may alias the result. The range-membership predicates answer true exactly for members of their range.",
 ["inputs"],"all 256/512-bit values in the documented input range, all aliasing patterns",
 "The wrong-by-one-multiple cases occur on a vanishing fraction (about 2^-60 or less) of inputs near multiples of the modulus or near 2^256.",
 [FE+"uint256_modular.go"],[("addAndReduce_b_c, Reduce_*, ReduceUint512ToUint256_a, IsReduced_*",FE+"uint256_modular.go:46-960")])
p("F03","Montgomery products and conversions are correct for every input in range",
 "For all inputs below 2^256 minus the base field size, Montgomery multiplication and squaring return z with 2^256*z congruent to the product modulo the base field size and z below 2^256 minus the base field size; converting out of Montgomery form returns the fully reduced x/2^256 and converting into it returns a value congruent to 2^256*x in the same range. Arguments may alias the result.",
 ["inputs"],"all operand values in the documented range, all aliasing patterns",
 "The carry-propagation corner cases that distinguish the range without overflow have negligible probability under random sampling.",
 [FE+"uint256_montgomery.go"],[("MulMontgomery_c and the unrolled/step helpers, FromMontgomeryRepresentation_fc, ConvertToMontgomeryRepresentation_c, ToNonMontgomery_fc",FE+"uint256_montgomery.go:33-520")])
exec(open(V+"/meta/props_more.py").read()) if os.path.exists(V+"/meta/props_more.py") else None
open(V+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
