ID = "c19-absent"; PROPERTY = "C19"
NEEDS = "a tree with a key in a block that the log does not have"
BREAKS = "the lookup panics instead of reporting the missing block"
EDITS = [("src/blocks.rs", ".ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;", ".expect(\"seqs come from the tree\");")]
MAIN = r'''
use hyperbee::Hyperbee;

fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.extend(b);
    v
}

/// a block with a key and tree nodes, given as their keys and children
fn block(key: u8, nodes: &[(&[u64], &[u64])]) -> Vec<u8> {
    fn varints(xs: &[u64]) -> Vec<u8> {
        let mut out = vec![];
        for &x in xs {
            let mut x = x;
            while x > 127 {
                out.push(x as u8 | 128);
                x >>= 7;
            }
            out.push(x as u8);
        }
        out
    }
    fn field(tag: u8, b: &[u8]) -> Vec<u8> {
        let mut v = vec![tag];
        v.extend(varints(&[b.len() as u64]));
        v.extend(b);
        v
    }
    let mut index = vec![];
    for (keys, children) in nodes {
        let mut level = field(0x0a, &varints(keys));
        level.extend(field(0x12, &varints(children)));
        index.extend(field(0x0a, &level));
    }
    let mut b = field(0x0a, &index);
    b.extend(field(0x12, &[key]));
    frame(&b)
}

async fn run() {
    let dir = std::env::temp_dir().join(format!("c19-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut all = frame(b"\x0a\x08hyperbee");
    all.extend(block(b'b', &[(&[7], &[])]));
    std::fs::write(dir.join("blocks"), all).unwrap();
    let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
    let failed = hb.get(b"a").await.is_err();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(failed);
}

fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(5));
        eprintln!("no answer within 5 s");
        std::process::exit(101);
    });
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
