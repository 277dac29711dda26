fn main() {
    sub::rsym_entry(0, 0);
}
