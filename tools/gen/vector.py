#!/usr/bin/env python3
"""Writes contracts/ops2.inc and contracts/opsx.inc: the operators of positions and directions, coordinate by coordinate."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'contracts')

def coords(d):
    return 'xyz'[:d]

def binary(op, lhs, rhs, generics, d, other_at):
    """operator `op` of lhs with rhs; other_at(i): the term of the operand's coordinate i"""
    low = op.lower()
    g = f'<{generics}>' if generics else ''
    life = "'a, " if lhs.startswith('&') else ''
    if lhs.startswith('&'):
        g = f"<'a{', ' + generics if generics else ''}>"
    vl = lhs.replace('&', "&'a ")
    vr = rhs.replace('&', "&'a ")
    base = lhs.lstrip('&')
    out = base.replace('Norm', 'Point')
    s = f'impl{g} vstd::std_specs::ops::{op}SpecImpl<{vr}> for {vl} {{\n'
    s += f'    open spec fn obeys_{low}_spec() -> bool {{ false }}\n    open spec fn {low}_req(self, other: {vr}) -> bool {{ true }}\n    open spec fn {low}_spec(self, other: {vr}) -> {out} {{ arbitrary() }}\n}}\n'
    s += f'//@ impl {op}<{rhs}> for {lhs}\n//@ type Output\n//@ fn {low}\n//@ ret r\n//@ spec\n'
    s += '        ensures ' + ', '.join(f'r.{c} == self.{c}.ieee_{low}({other_at(i)})' for i, c in enumerate(coords(d))) + ',\n'
    s += '//@ start\n        proof { ' + ' '.join(f'fl::at(self.{c}, {other_at(i)}); fl::at({other_at(i)}, self.{c});' for i, c in enumerate(coords(d))) + ' }\n//@ enditem\n'
    return s

def neg(t, d):
    vt = t.replace('&', "&'a ")
    g = "<'a>" if '&' in t else ''
    base = t.lstrip('&')
    s = f'impl{g} vstd::std_specs::ops::NegSpecImpl for {vt} {{\n    open spec fn obeys_neg_spec() -> bool {{ false }}\n    open spec fn neg_req(self) -> bool {{ true }}\n    open spec fn neg_spec(self) -> {base} {{ arbitrary() }}\n}}\n'
    s += f'//@ impl Neg for {t}\n//@ negate\n//@ type Output\n//@ fn neg\n//@ ret r\n//@ spec\n        ensures ' + ', '.join(f'r.{c} == self.{c}.ieee_neg()' for c in coords(d)) + ',\n//@ enditem\n'
    return s

def adds(d):
    p = f'Point{d}D'
    s = ''
    for op in ('Add', 'Sub'):
        s += binary(op, p, 'P', f'P: Is{d}D', d, lambda i: f'other.at({i})')
        s += binary(op, '&' + p, '&P', f'P: Is{d}D', d, lambda i: f'other.at({i})')
        s += binary(op, '&' + p, p, '', d, lambda i: f'other.at({i})')
    return s

def by(op, t, d):
    return binary(op, t, 'f64', '', d, lambda i: 'other') + binary(op, '&' + t, 'f64', '', d, lambda i: 'other')

two = '// the operators on positions in 2D: every coordinate by itself\n//@ file src/point_2d.rs\n' + adds(2) + by('Mul', 'Point2D', 2) + by('Div', 'Point2D', 2) + neg('Point2D', 2) + neg('&Point2D', 2)
two += '//@ file src/norm_2d.rs\n' + by('Mul', 'Norm2D', 2) + neg('Norm2D', 2) + neg('&Norm2D', 2)
open(os.path.join(OUT, 'ops2.inc'), 'w').write(two)
x = '// the remaining operators on positions in 3D (see ops3.inc)\n//@ file src/point_3d.rs\n' + by('Div', 'Point3D', 3) + neg('Point3D', 3) + neg('&Point3D', 3) + '//@ file src/norm_3d.rs\n' + neg('Norm3D', 3) + neg('&Norm3D', 3)
open(os.path.join(OUT, 'opsx.inc'), 'w').write(x)
