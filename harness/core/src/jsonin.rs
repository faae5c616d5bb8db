//! Just enough JSON to read the messages to build.
#[derive(Debug, Clone)]
pub enum J {
    N(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    assert_eq!(p, b.len());
    v
}
fn val(b: &[u8], p: &mut usize) -> J {
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            while b[*p] != b'}' {
                let k = string(b, p);
                assert_eq!(b[*p], b':');
                *p += 1;
                v.push((k, val(b, p)));
                if b[*p] == b',' {
                    *p += 1;
                }
            }
            *p += 1;
            J::O(v)
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            while b[*p] != b']' {
                v.push(val(b, p));
                if b[*p] == b',' {
                    *p += 1;
                }
            }
            *p += 1;
            J::A(v)
        }
        b'"' => J::S(string(b, p)),
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::N(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    assert_eq!(b[*p], b'"');
    *p += 1;
    let s = *p;
    while b[*p] != b'"' {
        assert_ne!(b[*p], b'\\');
        *p += 1;
    }
    *p += 1;
    String::from_utf8(b[s..*p - 1].to_vec()).unwrap()
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("no {k}"))
    }
    pub fn s(&self, k: &str) -> String {
        match self.at(k) {
            J::S(s) => s.clone(),
            x => panic!("{k}: {x:?}"),
        }
    }
    pub fn n(&self, k: &str) -> i64 {
        match self.at(k) {
            J::N(n) => *n,
            J::B(b) => *b as i64,
            x => panic!("{k}: {x:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            x => panic!("{x:?}"),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| if let J::N(n) = x { *n as u8 } else { panic!() }).collect()
    }
    pub fn u64(&self, k: &str) -> u64 {
        u64::from_le_bytes(self.at(k).bytes().try_into().unwrap())
    }
}
