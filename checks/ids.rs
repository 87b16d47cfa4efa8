//! Step identifiers of composed systems, with the component groups they must list.
use crate::vp::*;
use crate::TransitionSystems::TransitionID as T;

/// Shape of a composed system: what the identifiers of its steps must look like.
pub enum Shape {
    Leaf,
    Conj(Box<Shape>, Box<Shape>),
    Comp(Box<Shape>, Box<Shape>),
    Quot(Box<Shape>, Box<Shape>),
}
pub fn shape(depth: usize) -> Shape {
    match if depth == 0 { 0 } else { choose("operator", 4) } {
        0 => Shape::Leaf,
        1 => Shape::Conj(Box::new(shape(depth - 1)), Box::new(shape(depth - 1))),
        2 => Shape::Comp(Box::new(shape(depth - 1)), Box::new(shape(depth - 1))),
        _ => Shape::Quot(Box::new(shape(depth - 1)), Box::new(shape(depth - 1))),
    }
}
pub fn width(s: &Shape) -> usize {
    match s {
        Shape::Leaf => 1,
        Shape::Conj(a, b) | Shape::Comp(a, b) | Shape::Quot(a, b) => width(a) + width(b),
    }
}
/// A chain of operators that nests on one side only: ((a . b) . c) . d or a . (b . (c . d))
pub fn skewed(len: usize, left: bool) -> Shape {
    let mut s = Shape::Leaf;
    for _ in 1..len {
        let (a, b) = if left { (s, Shape::Leaf) } else { (Shape::Leaf, s) };
        let (a, b) = (Box::new(a), Box::new(b));
        s = match choose("operator", 3) { 0 => Shape::Conj(a, b), 1 => Shape::Comp(a, b), _ => Shape::Quot(a, b) };
    }
    s
}
/// An identifier of the given shape; its component groups are appended to `out[at..]`.
pub fn ident(s: &Shape, at: usize, out: &mut Vec<Vec<T>>, idle: bool) -> T {
    ident_(s, at, out, idle, 2)
}
pub fn ident_(s: &Shape, at: usize, out: &mut Vec<Vec<T>>, idle: bool, most: usize) -> T {
    let ident = |s: &Shape, at: usize, out: &mut Vec<Vec<T>>, idle: bool| ident_(s, at, out, idle, most);
    match s {
        Shape::Leaf => {
            let id = if idle && split("idle") { T::None } else { T::Simple(chr("edge", b'a', b'z')) };
            out[at].push(id.clone());
            id
        }
        Shape::Conj(a, b) => {
            let l = ident(a, at, out, idle);
            T::Conjunction(Box::new(l), Box::new(ident(b, at + width(a), out, idle)))
        }
        Shape::Comp(a, b) => {
            let l = ident(a, at, out, idle);
            T::Composition(Box::new(l), Box::new(ident(b, at + width(a), out, idle)))
        }
        Shape::Quot(a, b) => {
            let nl = alternatives(a, most);
            let nr = alternatives(b, most);
            let l = (0..nl).map(|_| ident(a, at, out, idle)).collect();
            let r = (0..nr).map(|_| ident(b, at + width(a), out, idle)).collect();
            T::Quotient(l, r)
        }
    }
}
/// a quotient step names any number of edges per side; a side that does not take part names none
fn alternatives(s: &Shape, most: usize) -> usize {
    if width(s) == 1 { choose("alternatives", most + 1) } else { 1 + choose("alternatives", most) }
}
