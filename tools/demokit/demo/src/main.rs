use hyperbee::Hyperbee;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let hb = Hyperbee::from_ram().await.unwrap();
    hb.put(b"a", Some(b"b")).await.unwrap();
    assert_eq!(hb.get(b"a").await.unwrap(), Some((1, Some(b"b".to_vec()))));
}
