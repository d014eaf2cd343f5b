//! The other side of C45 and C46: the operations in a build without the parallel feature, debug assertions
//! and overflow checks. One case per input line, one reply per output line.
fn main() {
    vh::other::worker();
}
