mod props;

fn main() {
    nttmc::cli::main(props::all());
}
