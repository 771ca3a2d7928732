ID = "c24-breadth"; PROPERTY = "C24"
NEEDS = "a split on two levels, where the left half of the upper node leads to a node of the same block"
BREAKS = "the block lists its nodes breadth first; references are right, so it reads back the same"
EDITS = [("src/blocks.rs", "= child_stack.pop() {", "= (!child_stack.is_empty()).then(|| child_stack.remove(0)) {"), ("src/blocks.rs", "        .rev()\n", "")]
MAIN = r'''
use hyperbee::Hyperbee;

fn varint(b: &[u8], i: &mut usize) -> u64 {
    let (mut v, mut s) = (0, 0);
    loop {
        let x = b[*i];
        *i += 1;
        v |= ((x & 127) as u64) << s;
        s += 7;
        if x < 128 {
            return v;
        }
    }
}

fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let tag = varint(b, &mut i);
        if tag & 7 == 2 {
            let n = varint(b, &mut i) as usize;
            out.push((tag >> 3, b[i..i + n].to_vec()));
            i += n;
        } else {
            varint(b, &mut i);
        }
    }
    out
}

fn numbers(b: &[u8]) -> Vec<u64> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        out.push(varint(b, &mut i));
    }
    out
}

/// (keys, children) of the nodes in a block, the root first
fn nodes(block: &[u8]) -> Vec<(Vec<u64>, Vec<u64>)> {
    let index = fields(block).into_iter().find(|f| f.0 == 1).unwrap().1;
    fields(&index).into_iter().filter(|f| f.0 == 1).map(|(_, level)| {
        let part = |n| fields(&level).into_iter().filter(|f| f.0 == n).flat_map(|f| numbers(&f.1)).collect();
        (part(1), part(2))
    }).collect()
}

fn blocks(dir: &std::path::Path) -> Vec<Vec<u8>> {
    let b = std::fs::read(dir.join("blocks")).unwrap();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let n = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize;
        out.push(b[i + 8..i + 8 + n].to_vec());
        i += 8 + n;
    }
    out
}

/// the nodes of a block in depth-first order, by their position
fn walk(nodes: &[(Vec<u64>, Vec<u64>)], seq: u64, at: usize, out: &mut Vec<usize>) {
    out.push(at);
    for c in nodes[at].1.chunks(2) {
        if c[0] == seq {
            walk(nodes, seq, c[1] as usize, out);
        }
    }
}

async fn run() {
    let dir = std::env::temp_dir().join(format!("c24-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
    for i in (0..400).rev() {
        hb.put(format!("{i:04}").as_bytes(), None).await.unwrap();
    }
    let all = blocks(&dir);
    std::fs::remove_dir_all(&dir).unwrap();
    for (seq, block) in all.iter().enumerate().skip(1) {
        let nodes = nodes(block);
        let mut order = vec![];
        walk(&nodes, seq as u64, 0, &mut order);
        assert_eq!(order, (0..nodes.len()).collect::<Vec<_>>(), "block {seq}");
    }
}

fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
