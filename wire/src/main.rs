mod amounts;
mod formats;

fn main() {
    nttmc::cli::main(vec![("C15", formats::c15), ("C16", amounts::c16)]);
}
