mod props;
fn main() {
    mc::cli::main(props::props(), || {
        let _ = ipmb::version();
        let _ = ipmb::MemoryRegion::new(16);
        let _ = std::time::Instant::now();
    })
}
