// Generated by `mc --find-hashes`.

pub struct Special {
    pub alg: u8,
    pub seed: [u32; 4],
    pub triples: [[&'static str; 3]; 2],
    pub eof: [&'static str; 2],
    pub before_eof: &'static str,
    pub zero: &'static str,
}

pub const SPECIAL: [Special; 4] = [
    Special { alg: 1, seed: [0, 0, 0, 0],
        triples: [["cjst2200", "csi48400", "cml5j600"], ["c8geu500", "c9r7d700", "cbvah700"]],
        eof: ["coeaghi0", "c4nir2s1"], before_eof: "cpda69b1", zero: "chkhrtc0" },
    Special { alg: 1, seed: [286335522, 858997828, 1431660134, 2004322440],
        triples: [["cd1ns000", "cpubb600", "c2j7o600"], ["cbr6g100", "cghsk200", "cckpo500"]],
        eof: ["c17ukt63", "co91ik26"], before_eof: "c961av20", zero: "c792s8lb" },
    Special { alg: 2, seed: [0, 0, 0, 0],
        triples: [["c73bj100", "cb9bl200", "cd18n700"], ["clt2v000", "c449n100", "ck6js700"]],
        eof: ["cnktebv1", "ccihme34"], before_eof: "cnkqs0g4", zero: "cqadiqu0" },
    Special { alg: 2, seed: [286335522, 858997828, 1431660134, 2004322440],
        triples: [["ct1to400", "c8ocp400", "ccq5l500"], ["c6a5l100", "cs9op100", "ceapc400"]],
        eof: ["c510eku0", "c84a2uq2"], before_eof: "chisaob0", zero: "c31aaki0" },
];
