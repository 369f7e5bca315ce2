mod clock;
mod explore;
mod fine;
mod props;
mod report;
mod sched;
mod scn;
mod util;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }

    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    fn parse(s: &str) -> Option<Self> {
        match s {
            "quick" => Some(Tier::Quick),
            "thorough" => Some(Tier::Thorough),
            _ => None,
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    explore::install_panic_hook();
    if let Err(e) = clock::self_test() {
        eprintln!("check error: {e}");
        std::process::exit(2);
    }
    let code = match args.as_slice() {
        ["replay", file] => report::replay(file),
        ["fresh", op] => props::c21::fresh(op),
        ["list"] => {
            for id in props::IDS {
                println!("{id}");
            }
            0
        }
        [id, tier] => match Tier::parse(tier) {
            Some(t) => report::run(id, t),
            None => usage(),
        },
        _ => usage(),
    };
    std::process::exit(code);
}

fn usage() -> i32 {
    eprintln!("usage: vmc <property> quick|thorough | vmc replay <file> | vmc list");
    2
}
