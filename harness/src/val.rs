//! Uniform parse values; serialised as a flat sequence of strings for the TLA+ side.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(char),
    L(Vec<Val>),
    T(Vec<Val>),
    N,
    S(Box<Val>),
    U,
    I(i64),
    K(&'static str),
    /// left operand, operator, right operand
    B(Box<Val>, Box<Val>, Box<Val>),
    M(Box<Val>),
    /// a position, in the stream's own terms
    P(String),
}
impl Val {
    pub fn toks(&self, o: &mut Vec<String>) {
        match self {
            Val::C(c) => o.push(c.to_string()),
            Val::L(v) => {
                o.push("[[".into());
                v.iter().for_each(|x| x.toks(o));
                o.push("]]".into())
            }
            Val::T(v) => {
                o.push("((".into());
                v.iter().for_each(|x| x.toks(o));
                o.push("))".into())
            }
            Val::N => o.push("None".into()),
            Val::S(v) => {
                o.push("Some".into());
                v.toks(o)
            }
            Val::U => o.push("unit".into()),
            Val::I(i) => o.push(format!("#{}", i)),
            Val::K(k) => o.push(format!("k:{}", k)),
            Val::B(l, op, r) => {
                o.push("<<".into());
                l.toks(o);
                op.toks(o);
                r.toks(o);
                o.push(">>".into())
            }
            Val::P(p) => o.push(format!("@{}", p)),
            Val::M(v) => {
                o.push("mapped".into());
                v.toks(o)
            }
        }
    }
    pub fn ser(&self) -> Vec<String> {
        let mut o = vec![];
        self.toks(&mut o);
        o
    }
    /// The characters in it.
    pub fn text(&self) -> String {
        match self {
            Val::C(c) => c.to_string(),
            Val::L(v) | Val::T(v) => v.iter().map(|x| x.text()).collect(),
            Val::S(v) | Val::M(v) => v.text(),
            Val::B(a, b, d) => a.text() + &b.text() + &d.text(),
            _ => String::new(),
        }
    }
    pub fn contains(&self, c: char) -> bool {
        match self {
            Val::C(x) => *x == c,
            Val::L(v) | Val::T(v) => v.iter().any(|x| x.contains(c)),
            Val::S(v) | Val::M(v) => v.contains(c),
            Val::B(a, b, d) => a.contains(c) || b.contains(c) || d.contains(c),
            _ => false,
        }
    }
}
