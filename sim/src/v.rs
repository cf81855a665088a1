//! A neutral value both the reference decoder and the code under test are translated to.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Group {
    /// ConstantValue, Signature, ... and unknown attributes
    Simple,
    Code,
    Annot,
    Frames,
    Tables,
    /// SourceDebugExtension
    Text,
}

#[derive(Clone, Debug)]
pub enum V {
    I(i64),
    S(String),
    B(Vec<u8>),
    L(Vec<V>),
    N(&'static str, Vec<V>),
    /// an attribute: kind, group, its own content, its nested attributes
    A(&'static str, Group, Vec<V>, Vec<V>),
    /// matches everything (only ever produced by the reference, for lenient cases)
    Any,
}

#[derive(Clone, Copy)]
pub struct Scope {
    pub pool: bool,
    /// whether strings of the pool are compared
    pub pool_text: bool,
    pub header: bool,
    pub groups: &'static [Group],
}

pub const ALL: Scope = Scope {
    pool: true,
    pool_text: true,
    header: true,
    groups: &[Group::Simple, Group::Code, Group::Annot, Group::Frames, Group::Tables, Group::Text],
};

fn name_eq(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let mut x = a.bytes().filter(|c| *c != b'_').map(|c| c.to_ascii_lowercase());
    let mut y = b.bytes().filter(|c| *c != b'_').map(|c| c.to_ascii_lowercase());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (p, q) if p == q => {}
            _ => return false,
        }
    }
}

pub fn show(v: &V) -> String {
    let s = format!("{:?}", v);
    if s.chars().count() > 160 {
        let cut: String = s.chars().take(160).collect();
        format!("{}...", cut)
    } else {
        s
    }
}

fn differ(path: &str, e: &V, g: &V) -> Option<String> {
    Some(format!("at {}: stored {}, reported {}", path, show(e), show(g)))
}

/// The first difference inside the scope; `e` is the reference, `g` the code under test.
pub fn diff(e: &V, g: &V, sc: &Scope, path: &mut String) -> Option<String> {
    let len = path.len();
    match (e, g) {
        (V::Any, _) => None,
        (V::I(a), V::I(b)) if a == b => None,
        (V::S(a), V::S(b)) if a == b => None,
        (V::B(a), V::B(b)) if a == b => None,
        (V::L(a), V::L(b)) => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                path.push_str(&format!("/{}", i));
                let d = diff(x, y, sc, path);
                path.truncate(len);
                if d.is_some() {
                    return d;
                }
            }
            if a.len() != b.len() {
                return Some(format!("at {}: stored {} entries, reported {}", path, a.len(), b.len()));
            }
            None
        }
        (V::N(n, a), V::N(m, b)) => {
            if *n == "class" && *m == "class" {
                return diff_class(a, b, sc, path);
            }
            if (*n == "field" || *n == "method") && n == m {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if i < 3 && !sc.header {
                        continue;
                    }
                    path.push_str(&format!("/{}", ["flags", "name", "desc", "attributes"][i.min(3)]));
                    let d = diff(x, y, sc, path);
                    path.truncate(len);
                    if d.is_some() {
                        return d;
                    }
                }
                return None;
            }
            if !name_eq(n, m) || a.len() != b.len() {
                return differ(path, e, g);
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                path.push_str(&format!("/{}.{}", n, i));
                let d = diff(x, y, sc, path);
                path.truncate(len);
                if d.is_some() {
                    return d;
                }
            }
            None
        }
        (V::A(k, gr, own, nested), V::A(k2, gr2, own2, nested2)) => {
            path.push_str(&format!("/{}", k));
            let here = sc.groups.contains(gr) || sc.groups.contains(gr2);
            let mut d = None;
            if k != k2 {
                if here || sc.header {
                    d = differ(path, e, g);
                }
            } else {
                if here {
                    if own.len() != own2.len() {
                        d = differ(path, e, g);
                    }
                    for (i, (x, y)) in own.iter().zip(own2).enumerate() {
                        if d.is_none() {
                            let l = path.len();
                            path.push_str(&format!(".{}", i));
                            d = diff(x, y, sc, path);
                            path.truncate(l);
                        }
                    }
                }
                if d.is_none() {
                    if nested.len() != nested2.len() {
                        d = Some(format!("at {}: stored {} nested attributes, reported {}", path, nested.len(), nested2.len()));
                    }
                    for (i, (x, y)) in nested.iter().zip(nested2).enumerate() {
                        if d.is_none() {
                            let l = path.len();
                            path.push_str(&format!("/{}", i));
                            d = diff(x, y, sc, path);
                            path.truncate(l);
                        }
                    }
                }
            }
            path.truncate(len);
            d
        }
        _ => differ(path, e, g),
    }
}

const PARTS: [&str; 10] = [
    "minor", "major", "pool", "flags", "name", "super", "interfaces", "fields", "methods", "attributes",
];

fn diff_class(a: &[V], b: &[V], sc: &Scope, path: &mut String) -> Option<String> {
    let len = path.len();
    for i in 0..PARTS.len() {
        let compared = match i {
            2 => sc.pool || sc.pool_text,
            7..=9 => true,
            _ => sc.header,
        };
        if !compared {
            continue;
        }
        path.push_str(&format!("{}", PARTS[i]));
        let d = if i == 2 && !(sc.pool && sc.pool_text) {
            diff_pool(&a[i], &b[i], sc, path)
        } else {
            diff(&a[i], &b[i], sc, path)
        };
        path.truncate(len);
        if d.is_some() {
            return d;
        }
    }
    None
}

fn diff_pool(a: &V, b: &V, sc: &Scope, path: &mut String) -> Option<String> {
    if let (V::L(a), V::L(b)) = (a, b) {
        let text = |v: &V| matches!(v, V::N("utf8", _));
        if sc.pool && a.len() != b.len() {
            return Some(format!("at {}: stored {} slots, reported {}", path, a.len(), b.len()));
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let both = text(x) && text(y);
            if (sc.pool && !both) || (sc.pool_text && text(x)) {
                let l = path.len();
                path.push_str(&format!("#{}", i + 1));
                let d = diff(x, y, sc, path);
                path.truncate(l);
                if d.is_some() {
                    return d;
                }
            }
        }
        return None;
    }
    differ(path, a, b)
}
