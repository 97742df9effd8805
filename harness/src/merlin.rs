//! Reference Merlin transcript: Keccak-f[1600], STROBE-128 and the Merlin framing, written from their specifications.

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];

pub fn keccak_f(st: &mut [u8; 200]) {
    let mut a = [[0u64; 5]; 5]; // a[x][y]
    for y in 0..5 {
        for x in 0..5 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&st[8 * (x + 5 * y)..8 * (x + 5 * y) + 8]);
            a[x][y] = u64::from_le_bytes(w);
        }
    }
    for rc in RC.iter() {
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let mut b = [[0u64; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        b[0][0] = a[0][0];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            // pi: B[y][2x+3y] = rot(A[x][y], r)
            b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(r);
            let nx = y;
            let ny = (2 * x + 3 * y) % 5;
            x = nx;
            y = ny;
        }
        // chi
        for y in 0..5 {
            for x in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
    for y in 0..5 {
        for x in 0..5 {
            st[8 * (x + 5 * y)..8 * (x + 5 * y) + 8].copy_from_slice(&a[x][y].to_le_bytes());
        }
    }
}

const STROBE_R: usize = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 2;
const FLAG_C: u8 = 4;
const FLAG_M: u8 = 16;
const FLAG_K: u8 = 32;

pub struct Strobe {
    st: [u8; 200],
    pos: usize,
    pos_begin: usize,
}
impl Strobe {
    fn new(label: &[u8]) -> Strobe {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, STROBE_R as u8 + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        keccak_f(&mut st);
        let mut s = Strobe { st, pos: 0, pos_begin: 0 };
        s.op(FLAG_M | FLAG_A, false);
        s.absorb(label);
        s
    }
    fn run_f(&mut self) {
        self.st[self.pos] ^= self.pos_begin as u8;
        self.st[self.pos + 1] ^= 0x04;
        self.st[STROBE_R + 1] ^= 0x80;
        keccak_f(&mut self.st);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, d: &[u8]) {
        for &b in d {
            self.st[self.pos] ^= b;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn squeeze(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.st[self.pos];
            self.st[self.pos] = 0;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn op(&mut self, flags: u8, more: bool) {
        if more {
            return;
        }
        let old = self.pos_begin as u8;
        self.pos_begin = self.pos + 1;
        self.absorb(&[old, flags]);
        if flags & (FLAG_C | FLAG_K) != 0 && self.pos != 0 {
            self.run_f();
        }
    }
    fn meta_ad(&mut self, d: &[u8], more: bool) {
        self.op(FLAG_M | FLAG_A, more);
        self.absorb(d);
    }
    fn ad(&mut self, d: &[u8]) {
        self.op(FLAG_A, false);
        self.absorb(d);
    }
    fn prf(&mut self, d: &mut [u8]) {
        self.op(FLAG_I | FLAG_A | FLAG_C, false);
        self.squeeze(d);
    }
}

pub struct Transcript(Strobe);
impl Transcript {
    pub fn new(label: &[u8]) -> Transcript {
        let mut t = Transcript(Strobe::new(b"Merlin v1.0"));
        t.append(b"dom-sep", label);
        t
    }
    pub fn append(&mut self, label: &[u8], msg: &[u8]) {
        self.0.meta_ad(label, false);
        self.0.meta_ad(&(msg.len() as u32).to_le_bytes(), true);
        self.0.ad(msg);
    }
    pub fn challenge(&mut self, label: &[u8], out: &mut [u8]) {
        self.0.meta_ad(label, false);
        self.0.meta_ad(&(out.len() as u32).to_le_bytes(), true);
        self.0.prf(out);
    }
}
