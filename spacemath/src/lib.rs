//! Stand-in for the plane geometry crate bugi depends on and this environment lacks. It offers what
//! bugi's sources call, with the meaning its call sites rely on.
#![allow(clippy::should_implement_trait)]

/// Turning direction of three points, or side of a line.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Orient {
    Negative,
    Zero,
    Positive,
}

impl Orient {
    pub fn is_zero(self) -> bool {
        self == Orient::Zero
    }

    pub fn is_nonzero(self) -> bool {
        self != Orient::Zero
    }

    pub fn is_positive(self) -> bool {
        self == Orient::Positive
    }

    pub fn is_negative(self) -> bool {
        self == Orient::Negative
    }
}

pub mod two {
    use super::Orient;
    use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Point {
        pub x: f64,
        pub y: f64,
    }

    impl Point {
        pub fn new(x: f64, y: f64) -> Point {
            Point { x, y }
        }

        pub fn zero() -> Point {
            Point { x: 0.0, y: 0.0 }
        }

        pub fn mid(self, o: Point) -> Point {
            Point { x: (self.x + o.x) / 2.0, y: (self.y + o.y) / 2.0 }
        }

        pub fn dot(self, o: Point) -> f64 {
            self.x * o.x + self.y * o.y
        }

        pub fn cross(self, o: Point) -> f64 {
            self.x * o.y - self.y * o.x
        }

        pub fn norm(self) -> f64 {
            self.dot(self).sqrt()
        }

        pub fn to_unit(self) -> Point {
            self / self.norm()
        }
    }

    impl From<(f64, f64)> for Point {
        fn from(p: (f64, f64)) -> Point {
            Point { x: p.0, y: p.1 }
        }
    }

    impl From<Point> for (f64, f64) {
        fn from(p: Point) -> (f64, f64) {
            (p.x, p.y)
        }
    }

    impl From<[f64; 2]> for Point {
        fn from(p: [f64; 2]) -> Point {
            Point { x: p[0], y: p[1] }
        }
    }

    impl From<Point> for [f64; 2] {
        fn from(p: Point) -> [f64; 2] {
            [p.x, p.y]
        }
    }

    impl Add for Point {
        type Output = Point;
        fn add(self, o: Point) -> Point {
            Point { x: self.x + o.x, y: self.y + o.y }
        }
    }

    impl AddAssign for Point {
        fn add_assign(&mut self, o: Point) {
            *self = *self + o
        }
    }

    impl Sub for Point {
        type Output = Point;
        fn sub(self, o: Point) -> Point {
            Point { x: self.x - o.x, y: self.y - o.y }
        }
    }

    impl SubAssign for Point {
        fn sub_assign(&mut self, o: Point) {
            *self = *self - o
        }
    }

    impl Mul<f64> for Point {
        type Output = Point;
        fn mul(self, k: f64) -> Point {
            Point { x: self.x * k, y: self.y * k }
        }
    }

    impl Div<f64> for Point {
        type Output = Point;
        fn div(self, k: f64) -> Point {
            Point { x: self.x / k, y: self.y / k }
        }
    }

    impl Neg for Point {
        type Output = Point;
        fn neg(self) -> Point {
            Point { x: -self.x, y: -self.y }
        }
    }

    /// Turning direction of a, b, c; zero when they are collinear up to rounding.
    pub fn orient(a: Point, b: Point, c: Point) -> Orient {
        let (u, v) = (b - a, c - a);
        let cr = u.cross(v);
        let mag = [a, b, c].iter().map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
        let tol = 8.0 * f64::EPSILON * (u.norm() * v.norm() + mag * (u.norm() + v.norm()));
        if cr > tol {
            Orient::Positive
        } else if cr < -tol {
            Orient::Negative
        } else {
            Orient::Zero
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Segment {
        pub a: Point,
        pub b: Point,
    }

    impl Segment {
        pub fn new(a: Point, b: Point) -> Segment {
            Segment { a, b }
        }

        pub fn len(self) -> f64 {
            (self.b - self.a).norm()
        }

        pub fn mid(self) -> Point {
            self.a.mid(self.b)
        }
    }

    impl From<(Point, Point)> for Segment {
        fn from(s: (Point, Point)) -> Segment {
            Segment { a: s.0, b: s.1 }
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Circle {
        pub center: Point,
        pub radius: f64,
    }

    impl Circle {
        pub fn new(center: Point, radius: f64) -> Circle {
            Circle { center, radius }
        }

        pub fn contains(self, p: Point) -> bool {
            (p - self.center).norm() < self.radius
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Triangle {
        pub a: Point,
        pub b: Point,
        pub c: Point,
    }

    impl Triangle {
        pub fn new(a: Point, b: Point, c: Point) -> Triangle {
            Triangle { a, b, c }
        }

        pub fn dir(self) -> Orient {
            orient(self.a, self.b, self.c)
        }

        pub fn area(self) -> f64 {
            (self.b - self.a).cross(self.c - self.a) / 2.0
        }

        pub fn circumradius(self) -> f64 {
            let (p, q, r) = ((self.b - self.a).norm(), (self.c - self.b).norm(), (self.a - self.c).norm());
            p * q * r / (4.0 * self.area().abs())
        }
    }

    impl From<(Point, Point, Point)> for Triangle {
        fn from(t: (Point, Point, Point)) -> Triangle {
            Triangle { a: t.0, b: t.1, c: t.2 }
        }
    }

    pub mod dist {
        use super::{Point, Segment};

        pub trait Dist<T = Self> {
            fn dist(self, o: T) -> f64;
        }

        impl Dist<Point> for Point {
            fn dist(self, o: Point) -> f64 {
                (self - o).norm()
            }
        }

        impl Dist<Point> for Segment {
            fn dist(self, p: Point) -> f64 {
                let d = self.b - self.a;
                let l = d.dot(d);
                let t = if l > 0.0 { ((p - self.a).dot(d) / l).clamp(0.0, 1.0) } else { 0.0 };
                (self.a + d * t - p).norm()
            }
        }

        impl Dist<Segment> for Point {
            fn dist(self, s: Segment) -> f64 {
                s.dist(self)
            }
        }
    }

    pub mod intersect {
        use super::{orient, Orient, Point, Segment};

        /// How two shapes meet.
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Intersection {
            Zero,
            Nonzero,
        }

        impl Intersection {
            pub fn is_zero(self) -> bool {
                self == Intersection::Zero
            }

            pub fn is_nonzero(self) -> bool {
                self == Intersection::Nonzero
            }
        }

        pub trait Intersect<T = Self> {
            fn intersects(&self, o: &T) -> Intersection;
        }

        fn within(a: Point, b: Point, p: Point) -> bool {
            p.x >= a.x.min(b.x) && p.x <= a.x.max(b.x) && p.y >= a.y.min(b.y) && p.y <= a.y.max(b.y)
        }

        impl Intersect<Segment> for Segment {
            /// Whether the closed segments share a point.
            fn intersects(&self, o: &Segment) -> Intersection {
                let (a, b, c, d) = (self.a, self.b, o.a, o.b);
                let (p, q) = (orient(a, b, c), orient(a, b, d));
                let (r, s) = (orient(c, d, a), orient(c, d, b));
                let hit = if p != q && r != s && [p, q, r, s].iter().all(|x| *x != Orient::Zero) {
                    true
                } else {
                    (p == Orient::Zero && within(a, b, c))
                        || (q == Orient::Zero && within(a, b, d))
                        || (r == Orient::Zero && within(c, d, a))
                        || (s == Orient::Zero && within(c, d, b))
                };
                if hit {
                    Intersection::Nonzero
                } else {
                    Intersection::Zero
                }
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::two::dist::Dist;
    use super::two::intersect::Intersect;
    use super::two::{Point, Segment, Triangle};
    use super::Orient;

    fn p(x: f64, y: f64) -> Point {
        (x, y).into()
    }

    #[test]
    fn shapes() {
        let t: Triangle = (p(0.0, 0.0), p(3.0, 0.0), p(0.0, 4.0)).into();
        assert_eq!(t.dir(), Orient::Positive);
        assert!((t.circumradius() - 2.5).abs() < 1e-12);
        let s = Segment::new(p(0.0, 0.0), p(2.0, 0.0));
        assert!((s.dist(p(1.0, 2.0)) - 2.0).abs() < 1e-12);
        assert!(s.intersects(&Segment::new(p(1.0, -1.0), p(1.0, 1.0))).is_nonzero());
        assert!(s.intersects(&Segment::new(p(1.0, 0.0), p(1.0, 1.0))).is_nonzero());
        assert!(!s.intersects(&Segment::new(p(3.0, -1.0), p(3.0, 1.0))).is_nonzero());
        assert!(!s.intersects(&Segment::new(p(3.0, 0.0), p(4.0, 0.0))).is_nonzero());
    }
}
