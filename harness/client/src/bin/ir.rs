fn main() {
    client::rsym_entry(0, 0);
}
