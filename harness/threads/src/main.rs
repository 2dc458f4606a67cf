//! Compiles only if these can be used from several threads. Built by check.sh when the harness for
//! P27 does not build.
fn both<T: Send + Sync>() {}
fn send<T: Send>() {}
type Src = std::io::Cursor<Vec<u8>>;
type Dst = Vec<u8>;

fn main() {
    use osmio::obj_types::*;
    both::<ArcNode>();
    both::<ArcWay>();
    both::<ArcRelation>();
    both::<ArcOSMObj>();
    both::<StringNode>();
    both::<StringWay>();
    both::<StringRelation>();
    both::<StringOSMObj>();
    both::<osmio::changesets::Changeset>();
    both::<osmio::TimestampFormat>();
    send::<osmio::xml::XMLReader<Src>>();
    send::<osmio::osc::OSCReader<Src>>();
    send::<osmio::stringpbf::PBFReader<Src>>();
    send::<osmio::arcpbf::PBFReader<Src>>();
    send::<osmio::changesets::ChangesetReader<Src>>();
    send::<osmio::xml::XMLWriter<Dst>>();
    send::<osmio::osc::OSCWriter<Dst>>();
}
