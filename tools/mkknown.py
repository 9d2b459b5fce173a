"""Writes /verif/known: the recorded inputs of the known findings, in the form the harness reads."""
import json, os, re
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known")


def x(pid, key, text, ret, out=(), ins=()):
    lines = [re.findall(r"[@%]\w+|-?\w+|[^\s\w]", l) for l in text.strip().splitlines()]
    j = {"lines": lines, "st": "done", "ip": False, "out": list(out), "ret": ret, "ins": list(ins)}
    open(os.path.join(D, f"{pid}-{key}.nd"), "w").write(json.dumps(j) + "\n")


def bf(key, text):
    open(os.path.join(D, f"C24-{key}.nd"), "w").write(
        json.dumps({"s": list(text), "st": "reject", "out": [], "ins": []}) + "\n")


x("C23", "swap", """fun @main(): i32 {
%e:
jump %l(1, 2, 0)
%l(%a: i32, %b: i32, %n: i32):
%m = add %n, 1
%c = lt %m, 2
br %c, %l(%b, %a, %m), %x
%x:
ret %b
}""", 1)
x("C23", "zero-offset", """fun @main(): i32 {
%e:
%p = alloc i32
store 5, %p
%q = getptr %p, 0
%v = load %q
ret %v
}""", 5)
x("C23", "overflow", """fun @main(): i32 {
%e:
%v = add 2147483647, 1
ret %v
}""", -2147483648)
x("C23", "long-loop", """fun @main(): i32 {
%e:
jump %l(0)
%l(%n: i32):
%m = add %n, 1
%c = lt %m, 400000
br %c, %l(%m), %x
%x:
ret 3
}""", 3)
x("C23", "array-store", """fun @main(): i32 {
%e:
%a = alloc [i32, 2]
%p = getelemptr %a, 0
store {1, 2}, %a
store 7, %p
%q = getelemptr %a, 0
%v = load %q
ret %v
}""", 7)
x("C23", "undef-array", """fun @main(): i32 {
%e:
%a = alloc [i32, 2]
store undef, %a
%p = getelemptr %a, 1
store 3, %p
%v = load %p
ret %v
}""", 3)
x("C22", "overflow", """fun @main(): i32 {
%e:
%v = add 2147483647, 1
ret %v
}""", -2147483648)
x("C22", "undef", """fun @main(): i32 {
%e:
%v = add undef, 1
ret 0
}""", 0)
x("C22", "global", """global @g = alloc i32, 3
fun @main(): i32 {
%e:
%v = load @g
ret %v
}""", 3)
x("C22", "pointer-parameter", """fun @main(): i32 {
%e:
br 0, %b(undef), %c
%b(%p: *i32):
%v = load %p
ret %v
%c:
ret 7
}""", 7)
bf("bracket", "+[")
bf("bracket-nested", "+[[-]")
