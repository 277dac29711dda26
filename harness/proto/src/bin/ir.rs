fn main() {
    proto::rsym_entry(0, 0);
}
