#![allow(unused)]
use hydra::*;
use std::time::Duration;
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
    let (tx, rx) = tokio::sync::oneshot::channel();
    Process::spawn(async move {
        let ok = demo().await;
        let _ = tx.send(ok);
    });
    let ok = matches!(tokio::time::timeout(Duration::from_secs(80), rx).await, Ok(Ok(true)));
    println!("{}", if ok { "held" } else { "BROKEN" });
    std::process::exit(if ok { 0 } else { 1 });
}
