ID = "c25-tie"; PROPERTY = "C25"
NEEDS = "a delete of a key of an inner node whose neighbouring leaves hold equally many keys"
BREAKS = "the removed key is replaced from the right subtree instead of the left one, so the tree differs from the one other implementations store"
EDITS = [("src/del.rs", "if num_left_keys < num_right_keys {", "if num_right_keys >= num_left_keys {")]
MAIN = r'''
use hyperbee::Hyperbee;

fn varint(b: &[u8], i: &mut usize) -> u64 {
    let (mut v, mut s) = (0, 0);
    loop {
        let x = b[*i];
        *i += 1;
        v |= ((x & 127) as u64) << s;
        s += 7;
        if x < 128 {
            return v;
        }
    }
}

fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let tag = varint(b, &mut i);
        if tag & 7 == 2 {
            let n = varint(b, &mut i) as usize;
            out.push((tag >> 3, b[i..i + n].to_vec()));
            i += n;
        } else {
            varint(b, &mut i);
        }
    }
    out
}

fn numbers(b: &[u8]) -> Vec<u64> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        out.push(varint(b, &mut i));
    }
    out
}

/// (keys, children) of the nodes in a block, the root first
fn nodes(block: &[u8]) -> Vec<(Vec<u64>, Vec<u64>)> {
    let index = fields(block).into_iter().find(|f| f.0 == 1).unwrap().1;
    fields(&index).into_iter().filter(|f| f.0 == 1).map(|(_, level)| {
        let part = |n| fields(&level).into_iter().filter(|f| f.0 == n).flat_map(|f| numbers(&f.1)).collect();
        (part(1), part(2))
    }).collect()
}

fn blocks(dir: &std::path::Path) -> Vec<Vec<u8>> {
    let b = std::fs::read(dir.join("blocks")).unwrap();
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let n = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize;
        out.push(b[i + 8..i + 8 + n].to_vec());
        i += 8 + n;
    }
    out
}

async fn run() {
    let dir = std::env::temp_dir().join(format!("c25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
    // seq 1..=9 hold the keys 1..=9, seq 10 and 11 the keys 0 and 10: [5 | 0 1 2 3 4, 6 7 8 9 10]
    for i in (1..10u8).chain([0, 10]) {
        hb.put(&[i], None).await.unwrap();
    }
    hb.del(&[5]).await.unwrap();
    let all = blocks(&dir);
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(nodes(all.last().unwrap())[0].0, vec![4], "the left neighbour takes the place of the removed key");
}

fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
