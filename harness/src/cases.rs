// Generated by tools/gen_schemas.py.
pub mod c0a { aldrin::generate!("schemas/c0a/alpha.aldrin", "schemas/c0a/beta.aldrin", include = "schemas/c0a", introspection = true); }
pub mod c0b { aldrin::generate!("schemas/c0b/alpha.aldrin", "schemas/c0b/beta.aldrin", include = "schemas/c0b", introspection = true); }
pub mod c1a { aldrin::generate!("schemas/c1a/alpha.aldrin", "schemas/c1a/beta.aldrin", include = "schemas/c1a", introspection = true); }
pub mod c1b { aldrin::generate!("schemas/c1b/alpha.aldrin", "schemas/c1b/beta.aldrin", include = "schemas/c1b", introspection = true); }
pub mod c2a { aldrin::generate!("schemas/c2a/alpha.aldrin", "schemas/c2a/beta.aldrin", include = "schemas/c2a", introspection = true); }
pub mod c2b { aldrin::generate!("schemas/c2b/alpha.aldrin", "schemas/c2b/beta.aldrin", include = "schemas/c2b", introspection = true); }
pub mod c3a { aldrin::generate!("schemas/c3a/alpha.aldrin", "schemas/c3a/beta.aldrin", include = "schemas/c3a", introspection = true); }
pub mod c3b { aldrin::generate!("schemas/c3b/alpha.aldrin", "schemas/c3b/beta.aldrin", include = "schemas/c3b", introspection = true); }
pub mod c4a { aldrin::generate!("schemas/c4a/alpha.aldrin", "schemas/c4a/beta.aldrin", include = "schemas/c4a", introspection = true); }
pub mod c4b { aldrin::generate!("schemas/c4b/alpha.aldrin", "schemas/c4b/beta.aldrin", include = "schemas/c4b", introspection = true); }
pub mod c5a { aldrin::generate!("schemas/c5a/alpha.aldrin", "schemas/c5a/beta.aldrin", include = "schemas/c5a", introspection = true); }
pub mod c5b { aldrin::generate!("schemas/c5b/alpha.aldrin", "schemas/c5b/beta.aldrin", include = "schemas/c5b", introspection = true); }
pub mod c6a { aldrin::generate!("schemas/c6a/alpha.aldrin", "schemas/c6a/beta.aldrin", include = "schemas/c6a", introspection = true); }
pub mod c6b { aldrin::generate!("schemas/c6b/alpha.aldrin", "schemas/c6b/beta.aldrin", include = "schemas/c6b", introspection = true); }
pub mod c7a { aldrin::generate!("schemas/c7a/alpha.aldrin", "schemas/c7a/beta.aldrin", include = "schemas/c7a", introspection = true); }
pub mod c7b { aldrin::generate!("schemas/c7b/alpha.aldrin", "schemas/c7b/beta.aldrin", include = "schemas/c7b", introspection = true); }
pub mod c8a { aldrin::generate!("schemas/c8a/alpha.aldrin", "schemas/c8a/beta.aldrin", include = "schemas/c8a", introspection = true); }
pub mod c8b { aldrin::generate!("schemas/c8b/alpha.aldrin", "schemas/c8b/beta.aldrin", include = "schemas/c8b", introspection = true); }
pub mod c9a { aldrin::generate!("schemas/c9a/alpha.aldrin", "schemas/c9a/beta.aldrin", include = "schemas/c9a", introspection = true); }
pub mod c9b { aldrin::generate!("schemas/c9b/alpha.aldrin", "schemas/c9b/beta.aldrin", include = "schemas/c9b", introspection = true); }
use aldrin_core::introspection::DynIntrospectable;
#[allow(clippy::type_complexity)]
pub static CASES: &[(&str, &[(&str, &str, &[fn() -> DynIntrospectable])])] = &[
    (include_str!("../schemas/c0.txt"), &[
        ("alpha", "OakS0", &[DynIntrospectable::new::<c0a::alpha::OakS0>, DynIntrospectable::new::<c0b::alpha::OakS0>]),
        ("alpha", "IronE1", &[DynIntrospectable::new::<c0a::alpha::IronE1>, DynIntrospectable::new::<c0b::alpha::IronE1>]),
        ("alpha", "AppleS2", &[DynIntrospectable::new::<c0a::alpha::AppleS2>, DynIntrospectable::new::<c0b::alpha::AppleS2>]),
        ("alpha", "ElmE3", &[DynIntrospectable::new::<c0a::alpha::ElmE3>, DynIntrospectable::new::<c0b::alpha::ElmE3>]),
        ("alpha", "NorthS4", &[DynIntrospectable::new::<c0a::alpha::NorthS4>, DynIntrospectable::new::<c0b::alpha::NorthS4>]),
        ("alpha", "AppleAppleS5", &[DynIntrospectable::new::<c0a::alpha::AppleAppleS5>, DynIntrospectable::new::<c0b::alpha::AppleAppleS5>]),
        ("beta", "SouthGreenS0", &[DynIntrospectable::new::<c0a::beta::SouthGreenS0>, DynIntrospectable::new::<c0b::beta::SouthGreenS0>]),
        ("beta", "IronN1", &[DynIntrospectable::new::<c0a::beta::IronN1>, DynIntrospectable::new::<c0b::beta::IronN1>]),
        ("beta", "NorthN2", &[DynIntrospectable::new::<c0a::beta::NorthN2>, DynIntrospectable::new::<c0b::beta::NorthN2>]),
        ("beta", "WestS3", &[DynIntrospectable::new::<c0a::beta::WestS3>, DynIntrospectable::new::<c0b::beta::WestS3>]),
        ("beta", "EastS4", &[DynIntrospectable::new::<c0a::beta::EastS4>, DynIntrospectable::new::<c0b::beta::EastS4>]),
        ("beta", "EastBlueSvcIronOk", &[DynIntrospectable::new::<c0a::beta::EastBlueSvcIronOk>, DynIntrospectable::new::<c0b::beta::EastBlueSvcIronOk>]),
        ("beta", "EastBlueSvcRedOk", &[DynIntrospectable::new::<c0a::beta::EastBlueSvcRedOk>, DynIntrospectable::new::<c0b::beta::EastBlueSvcRedOk>]),
        ("beta", "EastBlueSvcGoldPearOk", &[DynIntrospectable::new::<c0a::beta::EastBlueSvcGoldPearOk>, DynIntrospectable::new::<c0b::beta::EastBlueSvcGoldPearOk>]),
        ("alpha", "RedSvc", &[DynIntrospectable::new::<c0a::alpha::RedSvc>, DynIntrospectable::new::<c0b::alpha::RedSvc>]),
        ("alpha", "RedSvc", &[DynIntrospectable::new::<c0a::alpha::RedSvcProxy>, DynIntrospectable::new::<c0b::alpha::RedSvcProxy>]),
        ("beta", "EastBlueSvc", &[DynIntrospectable::new::<c0a::beta::EastBlueSvc>, DynIntrospectable::new::<c0b::beta::EastBlueSvc>]),
        ("beta", "EastBlueSvc", &[DynIntrospectable::new::<c0a::beta::EastBlueSvcProxy>, DynIntrospectable::new::<c0b::beta::EastBlueSvcProxy>]),
    ]),
    (include_str!("../schemas/c1.txt"), &[
        ("alpha", "WestS0", &[DynIntrospectable::new::<c1a::alpha::WestS0>, DynIntrospectable::new::<c1b::alpha::WestS0>]),
        ("alpha", "PearN1", &[DynIntrospectable::new::<c1a::alpha::PearN1>, DynIntrospectable::new::<c1b::alpha::PearN1>]),
        ("alpha", "OakS2", &[DynIntrospectable::new::<c1a::alpha::OakS2>, DynIntrospectable::new::<c1b::alpha::OakS2>]),
        ("alpha", "BlueNorthE3", &[DynIntrospectable::new::<c1a::alpha::BlueNorthE3>, DynIntrospectable::new::<c1b::alpha::BlueNorthE3>]),
        ("beta", "ElmS0", &[DynIntrospectable::new::<c1a::beta::ElmS0>, DynIntrospectable::new::<c1b::beta::ElmS0>]),
        ("beta", "PlumBlueN1", &[DynIntrospectable::new::<c1a::beta::PlumBlueN1>, DynIntrospectable::new::<c1b::beta::PlumBlueN1>]),
        ("beta", "GoldN2", &[DynIntrospectable::new::<c1a::beta::GoldN2>, DynIntrospectable::new::<c1b::beta::GoldN2>]),
        ("beta", "NorthE3", &[DynIntrospectable::new::<c1a::beta::NorthE3>, DynIntrospectable::new::<c1b::beta::NorthE3>]),
        ("beta", "BlueSvcGoldError", &[DynIntrospectable::new::<c1a::beta::BlueSvcGoldError>, DynIntrospectable::new::<c1b::beta::BlueSvcGoldError>]),
        ("beta", "BlueSvcZincArgs", &[DynIntrospectable::new::<c1a::beta::BlueSvcZincArgs>, DynIntrospectable::new::<c1b::beta::BlueSvcZincArgs>]),
        ("beta", "BlueSvcGreenOk", &[DynIntrospectable::new::<c1a::beta::BlueSvcGreenOk>, DynIntrospectable::new::<c1b::beta::BlueSvcGreenOk>]),
        ("beta", "BlueSvcGreenError", &[DynIntrospectable::new::<c1a::beta::BlueSvcGreenError>, DynIntrospectable::new::<c1b::beta::BlueSvcGreenError>]),
        ("beta", "BlueSvcEastRedOk", &[DynIntrospectable::new::<c1a::beta::BlueSvcEastRedOk>, DynIntrospectable::new::<c1b::beta::BlueSvcEastRedOk>]),
        ("beta", "BlueSvcEastRedError", &[DynIntrospectable::new::<c1a::beta::BlueSvcEastRedError>, DynIntrospectable::new::<c1b::beta::BlueSvcEastRedError>]),
        ("alpha", "WestSouthSvc", &[DynIntrospectable::new::<c1a::alpha::WestSouthSvc>, DynIntrospectable::new::<c1b::alpha::WestSouthSvc>]),
        ("alpha", "WestSouthSvc", &[DynIntrospectable::new::<c1a::alpha::WestSouthSvcProxy>, DynIntrospectable::new::<c1b::alpha::WestSouthSvcProxy>]),
        ("beta", "BlueSvc", &[DynIntrospectable::new::<c1a::beta::BlueSvc>, DynIntrospectable::new::<c1b::beta::BlueSvc>]),
        ("beta", "BlueSvc", &[DynIntrospectable::new::<c1a::beta::BlueSvcProxy>, DynIntrospectable::new::<c1b::beta::BlueSvcProxy>]),
    ]),
    (include_str!("../schemas/c2.txt"), &[
        ("alpha", "EastElmE0", &[DynIntrospectable::new::<c2a::alpha::EastElmE0>, DynIntrospectable::new::<c2b::alpha::EastElmE0>]),
        ("alpha", "RedS1", &[DynIntrospectable::new::<c2a::alpha::RedS1>, DynIntrospectable::new::<c2b::alpha::RedS1>]),
        ("alpha", "IronS2", &[DynIntrospectable::new::<c2a::alpha::IronS2>, DynIntrospectable::new::<c2b::alpha::IronS2>]),
        ("alpha", "GoldS3", &[DynIntrospectable::new::<c2a::alpha::GoldS3>, DynIntrospectable::new::<c2b::alpha::GoldS3>]),
        ("beta", "WestPearE0", &[DynIntrospectable::new::<c2a::beta::WestPearE0>, DynIntrospectable::new::<c2b::beta::WestPearE0>]),
        ("beta", "WestS1", &[DynIntrospectable::new::<c2a::beta::WestS1>, DynIntrospectable::new::<c2b::beta::WestS1>]),
        ("beta", "SouthS2", &[DynIntrospectable::new::<c2a::beta::SouthS2>, DynIntrospectable::new::<c2b::beta::SouthS2>]),
        ("beta", "AshE3", &[DynIntrospectable::new::<c2a::beta::AshE3>, DynIntrospectable::new::<c2b::beta::AshE3>]),
        ("beta", "BlueE4", &[DynIntrospectable::new::<c2a::beta::BlueE4>, DynIntrospectable::new::<c2b::beta::BlueE4>]),
        ("alpha", "RedSvcOakArgs", &[DynIntrospectable::new::<c2a::alpha::RedSvcOakArgs>, DynIntrospectable::new::<c2b::alpha::RedSvcOakArgs>]),
        ("alpha", "RedSvcOakOk", &[DynIntrospectable::new::<c2a::alpha::RedSvcOakOk>, DynIntrospectable::new::<c2b::alpha::RedSvcOakOk>]),
        ("alpha", "RedSvcOakError", &[DynIntrospectable::new::<c2a::alpha::RedSvcOakError>, DynIntrospectable::new::<c2b::alpha::RedSvcOakError>]),
        ("alpha", "RedSvcElmOk", &[DynIntrospectable::new::<c2a::alpha::RedSvcElmOk>, DynIntrospectable::new::<c2b::alpha::RedSvcElmOk>]),
        ("alpha", "RedSvcElmError", &[DynIntrospectable::new::<c2a::alpha::RedSvcElmError>, DynIntrospectable::new::<c2b::alpha::RedSvcElmError>]),
        ("alpha", "RedSvcZincPlumOk", &[DynIntrospectable::new::<c2a::alpha::RedSvcZincPlumOk>, DynIntrospectable::new::<c2b::alpha::RedSvcZincPlumOk>]),
        ("alpha", "RedSvcEastOk", &[DynIntrospectable::new::<c2a::alpha::RedSvcEastOk>, DynIntrospectable::new::<c2b::alpha::RedSvcEastOk>]),
        ("alpha", "RedSvcEastError", &[DynIntrospectable::new::<c2a::alpha::RedSvcEastError>, DynIntrospectable::new::<c2b::alpha::RedSvcEastError>]),
        ("alpha", "RedSvcIronEastArgs", &[DynIntrospectable::new::<c2a::alpha::RedSvcIronEastArgs>, DynIntrospectable::new::<c2b::alpha::RedSvcIronEastArgs>]),
        ("beta", "PearSvcGoldWestError", &[DynIntrospectable::new::<c2a::beta::PearSvcGoldWestError>, DynIntrospectable::new::<c2b::beta::PearSvcGoldWestError>]),
        ("beta", "PearSvcRedError", &[DynIntrospectable::new::<c2a::beta::PearSvcRedError>, DynIntrospectable::new::<c2b::beta::PearSvcRedError>]),
        ("beta", "PearSvcGoldArgs", &[DynIntrospectable::new::<c2a::beta::PearSvcGoldArgs>, DynIntrospectable::new::<c2b::beta::PearSvcGoldArgs>]),
        ("alpha", "RedSvc", &[DynIntrospectable::new::<c2a::alpha::RedSvc>, DynIntrospectable::new::<c2b::alpha::RedSvc>]),
        ("alpha", "RedSvc", &[DynIntrospectable::new::<c2a::alpha::RedSvcProxy>, DynIntrospectable::new::<c2b::alpha::RedSvcProxy>]),
        ("beta", "PearSvc", &[DynIntrospectable::new::<c2a::beta::PearSvc>, DynIntrospectable::new::<c2b::beta::PearSvc>]),
        ("beta", "PearSvc", &[DynIntrospectable::new::<c2a::beta::PearSvcProxy>, DynIntrospectable::new::<c2b::beta::PearSvcProxy>]),
    ]),
    (include_str!("../schemas/c3.txt"), &[
        ("alpha", "PlumE0", &[DynIntrospectable::new::<c3a::alpha::PlumE0>, DynIntrospectable::new::<c3b::alpha::PlumE0>]),
        ("alpha", "EastPlumS1", &[DynIntrospectable::new::<c3a::alpha::EastPlumS1>, DynIntrospectable::new::<c3b::alpha::EastPlumS1>]),
        ("alpha", "WestN2", &[DynIntrospectable::new::<c3a::alpha::WestN2>, DynIntrospectable::new::<c3b::alpha::WestN2>]),
        ("alpha", "BlueS3", &[DynIntrospectable::new::<c3a::alpha::BlueS3>, DynIntrospectable::new::<c3b::alpha::BlueS3>]),
        ("alpha", "AshS4", &[DynIntrospectable::new::<c3a::alpha::AshS4>, DynIntrospectable::new::<c3b::alpha::AshS4>]),
        ("alpha", "EastIronN5", &[DynIntrospectable::new::<c3a::alpha::EastIronN5>, DynIntrospectable::new::<c3b::alpha::EastIronN5>]),
        ("beta", "PlumN0", &[DynIntrospectable::new::<c3a::beta::PlumN0>, DynIntrospectable::new::<c3b::beta::PlumN0>]),
        ("beta", "RedE1", &[DynIntrospectable::new::<c3a::beta::RedE1>, DynIntrospectable::new::<c3b::beta::RedE1>]),
        ("beta", "BlueRedS2", &[DynIntrospectable::new::<c3a::beta::BlueRedS2>, DynIntrospectable::new::<c3b::beta::BlueRedS2>]),
        ("beta", "OakN3", &[DynIntrospectable::new::<c3a::beta::OakN3>, DynIntrospectable::new::<c3b::beta::OakN3>]),
        ("beta", "AppleN4", &[DynIntrospectable::new::<c3a::beta::AppleN4>, DynIntrospectable::new::<c3b::beta::AppleN4>]),
        ("beta", "SouthS5", &[DynIntrospectable::new::<c3a::beta::SouthS5>, DynIntrospectable::new::<c3b::beta::SouthS5>]),
        ("alpha", "AshSvcZincAshError", &[DynIntrospectable::new::<c3a::alpha::AshSvcZincAshError>, DynIntrospectable::new::<c3b::alpha::AshSvcZincAshError>]),
        ("alpha", "AshSvcEastArgs", &[DynIntrospectable::new::<c3a::alpha::AshSvcEastArgs>, DynIntrospectable::new::<c3b::alpha::AshSvcEastArgs>]),
        ("alpha", "AshSvcEastOk", &[DynIntrospectable::new::<c3a::alpha::AshSvcEastOk>, DynIntrospectable::new::<c3b::alpha::AshSvcEastOk>]),
        ("alpha", "AshSvcEastError", &[DynIntrospectable::new::<c3a::alpha::AshSvcEastError>, DynIntrospectable::new::<c3b::alpha::AshSvcEastError>]),
        ("alpha", "AshSvcAshArgs", &[DynIntrospectable::new::<c3a::alpha::AshSvcAshArgs>, DynIntrospectable::new::<c3b::alpha::AshSvcAshArgs>]),
        ("beta", "ElmRedSvcAshOakArgs", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcAshOakArgs>, DynIntrospectable::new::<c3b::beta::ElmRedSvcAshOakArgs>]),
        ("beta", "ElmRedSvcAshOakOk", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcAshOakOk>, DynIntrospectable::new::<c3b::beta::ElmRedSvcAshOakOk>]),
        ("beta", "ElmRedSvcAshOakError", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcAshOakError>, DynIntrospectable::new::<c3b::beta::ElmRedSvcAshOakError>]),
        ("beta", "ElmRedSvcBlueOk", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcBlueOk>, DynIntrospectable::new::<c3b::beta::ElmRedSvcBlueOk>]),
        ("beta", "ElmRedSvcBlueError", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcBlueError>, DynIntrospectable::new::<c3b::beta::ElmRedSvcBlueError>]),
        ("beta", "ElmRedSvcWestOk", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcWestOk>, DynIntrospectable::new::<c3b::beta::ElmRedSvcWestOk>]),
        ("beta", "ElmRedSvcWestError", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcWestError>, DynIntrospectable::new::<c3b::beta::ElmRedSvcWestError>]),
        ("beta", "ElmRedSvcEastOk", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcEastOk>, DynIntrospectable::new::<c3b::beta::ElmRedSvcEastOk>]),
        ("alpha", "AshSvc", &[DynIntrospectable::new::<c3a::alpha::AshSvc>, DynIntrospectable::new::<c3b::alpha::AshSvc>]),
        ("alpha", "AshSvc", &[DynIntrospectable::new::<c3a::alpha::AshSvcProxy>, DynIntrospectable::new::<c3b::alpha::AshSvcProxy>]),
        ("beta", "ElmRedSvc", &[DynIntrospectable::new::<c3a::beta::ElmRedSvc>, DynIntrospectable::new::<c3b::beta::ElmRedSvc>]),
        ("beta", "ElmRedSvc", &[DynIntrospectable::new::<c3a::beta::ElmRedSvcProxy>, DynIntrospectable::new::<c3b::beta::ElmRedSvcProxy>]),
    ]),
    (include_str!("../schemas/c4.txt"), &[
        ("alpha", "SouthAppleS0", &[DynIntrospectable::new::<c4a::alpha::SouthAppleS0>, DynIntrospectable::new::<c4b::alpha::SouthAppleS0>]),
        ("alpha", "ZincN1", &[DynIntrospectable::new::<c4a::alpha::ZincN1>, DynIntrospectable::new::<c4b::alpha::ZincN1>]),
        ("alpha", "OakS2", &[DynIntrospectable::new::<c4a::alpha::OakS2>, DynIntrospectable::new::<c4b::alpha::OakS2>]),
        ("alpha", "PlumRedS3", &[DynIntrospectable::new::<c4a::alpha::PlumRedS3>, DynIntrospectable::new::<c4b::alpha::PlumRedS3>]),
        ("alpha", "AshN4", &[DynIntrospectable::new::<c4a::alpha::AshN4>, DynIntrospectable::new::<c4b::alpha::AshN4>]),
        ("beta", "GreenGreenS0", &[DynIntrospectable::new::<c4a::beta::GreenGreenS0>, DynIntrospectable::new::<c4b::beta::GreenGreenS0>]),
        ("beta", "PlumN1", &[DynIntrospectable::new::<c4a::beta::PlumN1>, DynIntrospectable::new::<c4b::beta::PlumN1>]),
        ("beta", "BlueS2", &[DynIntrospectable::new::<c4a::beta::BlueS2>, DynIntrospectable::new::<c4b::beta::BlueS2>]),
        ("beta", "OakS3", &[DynIntrospectable::new::<c4a::beta::OakS3>, DynIntrospectable::new::<c4b::beta::OakS3>]),
        ("beta", "ElmS4", &[DynIntrospectable::new::<c4a::beta::ElmS4>, DynIntrospectable::new::<c4b::beta::ElmS4>]),
        ("alpha", "BlueSvcOakIronArgs", &[DynIntrospectable::new::<c4a::alpha::BlueSvcOakIronArgs>, DynIntrospectable::new::<c4b::alpha::BlueSvcOakIronArgs>]),
        ("alpha", "BlueSvcOakIronOk", &[DynIntrospectable::new::<c4a::alpha::BlueSvcOakIronOk>, DynIntrospectable::new::<c4b::alpha::BlueSvcOakIronOk>]),
        ("alpha", "BlueSvcRedOk", &[DynIntrospectable::new::<c4a::alpha::BlueSvcRedOk>, DynIntrospectable::new::<c4b::alpha::BlueSvcRedOk>]),
        ("alpha", "BlueSvcRedError", &[DynIntrospectable::new::<c4a::alpha::BlueSvcRedError>, DynIntrospectable::new::<c4b::alpha::BlueSvcRedError>]),
        ("alpha", "BlueSvcPearArgs", &[DynIntrospectable::new::<c4a::alpha::BlueSvcPearArgs>, DynIntrospectable::new::<c4b::alpha::BlueSvcPearArgs>]),
        ("alpha", "BlueSvcPearOk", &[DynIntrospectable::new::<c4a::alpha::BlueSvcPearOk>, DynIntrospectable::new::<c4b::alpha::BlueSvcPearOk>]),
        ("alpha", "BlueSvcElmOk", &[DynIntrospectable::new::<c4a::alpha::BlueSvcElmOk>, DynIntrospectable::new::<c4b::alpha::BlueSvcElmOk>]),
        ("alpha", "BlueSvcElmError", &[DynIntrospectable::new::<c4a::alpha::BlueSvcElmError>, DynIntrospectable::new::<c4b::alpha::BlueSvcElmError>]),
        ("alpha", "BlueSvcOakPearArgs", &[DynIntrospectable::new::<c4a::alpha::BlueSvcOakPearArgs>, DynIntrospectable::new::<c4b::alpha::BlueSvcOakPearArgs>]),
        ("beta", "PlumSvcZincAshError", &[DynIntrospectable::new::<c4a::beta::PlumSvcZincAshError>, DynIntrospectable::new::<c4b::beta::PlumSvcZincAshError>]),
        ("beta", "PlumSvcEastArgs", &[DynIntrospectable::new::<c4a::beta::PlumSvcEastArgs>, DynIntrospectable::new::<c4b::beta::PlumSvcEastArgs>]),
        ("beta", "PlumSvcOakAshArgs", &[DynIntrospectable::new::<c4a::beta::PlumSvcOakAshArgs>, DynIntrospectable::new::<c4b::beta::PlumSvcOakAshArgs>]),
        ("alpha", "BlueSvc", &[DynIntrospectable::new::<c4a::alpha::BlueSvc>, DynIntrospectable::new::<c4b::alpha::BlueSvc>]),
        ("alpha", "BlueSvc", &[DynIntrospectable::new::<c4a::alpha::BlueSvcProxy>, DynIntrospectable::new::<c4b::alpha::BlueSvcProxy>]),
        ("beta", "PlumSvc", &[DynIntrospectable::new::<c4a::beta::PlumSvc>, DynIntrospectable::new::<c4b::beta::PlumSvc>]),
        ("beta", "PlumSvc", &[DynIntrospectable::new::<c4a::beta::PlumSvcProxy>, DynIntrospectable::new::<c4b::beta::PlumSvcProxy>]),
    ]),
    (include_str!("../schemas/c5.txt"), &[
        ("alpha", "NorthE0", &[DynIntrospectable::new::<c5a::alpha::NorthE0>, DynIntrospectable::new::<c5b::alpha::NorthE0>]),
        ("alpha", "NorthOakN1", &[DynIntrospectable::new::<c5a::alpha::NorthOakN1>, DynIntrospectable::new::<c5b::alpha::NorthOakN1>]),
        ("alpha", "PlumRedE2", &[DynIntrospectable::new::<c5a::alpha::PlumRedE2>, DynIntrospectable::new::<c5b::alpha::PlumRedE2>]),
        ("alpha", "OakPearN3", &[DynIntrospectable::new::<c5a::alpha::OakPearN3>, DynIntrospectable::new::<c5b::alpha::OakPearN3>]),
        ("alpha", "PlumS4", &[DynIntrospectable::new::<c5a::alpha::PlumS4>, DynIntrospectable::new::<c5b::alpha::PlumS4>]),
        ("beta", "OakS0", &[DynIntrospectable::new::<c5a::beta::OakS0>, DynIntrospectable::new::<c5b::beta::OakS0>]),
        ("beta", "EastNorthN1", &[DynIntrospectable::new::<c5a::beta::EastNorthN1>, DynIntrospectable::new::<c5b::beta::EastNorthN1>]),
        ("beta", "SouthE2", &[DynIntrospectable::new::<c5a::beta::SouthE2>, DynIntrospectable::new::<c5b::beta::SouthE2>]),
        ("beta", "AppleE3", &[DynIntrospectable::new::<c5a::beta::AppleE3>, DynIntrospectable::new::<c5b::beta::AppleE3>]),
        ("beta", "ElmEastE4", &[DynIntrospectable::new::<c5a::beta::ElmEastE4>, DynIntrospectable::new::<c5b::beta::ElmEastE4>]),
        ("alpha", "OakZincSvcGoldArgs", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcGoldArgs>, DynIntrospectable::new::<c5b::alpha::OakZincSvcGoldArgs>]),
        ("alpha", "OakZincSvcEastArgs", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcEastArgs>, DynIntrospectable::new::<c5b::alpha::OakZincSvcEastArgs>]),
        ("alpha", "OakZincSvcEastOk", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcEastOk>, DynIntrospectable::new::<c5b::alpha::OakZincSvcEastOk>]),
        ("alpha", "OakZincSvcEastError", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcEastError>, DynIntrospectable::new::<c5b::alpha::OakZincSvcEastError>]),
        ("alpha", "OakZincSvcOakArgs", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcOakArgs>, DynIntrospectable::new::<c5b::alpha::OakZincSvcOakArgs>]),
        ("alpha", "OakZincSvc", &[DynIntrospectable::new::<c5a::alpha::OakZincSvc>, DynIntrospectable::new::<c5b::alpha::OakZincSvc>]),
        ("alpha", "OakZincSvc", &[DynIntrospectable::new::<c5a::alpha::OakZincSvcProxy>, DynIntrospectable::new::<c5b::alpha::OakZincSvcProxy>]),
        ("beta", "PearSvc", &[DynIntrospectable::new::<c5a::beta::PearSvc>, DynIntrospectable::new::<c5b::beta::PearSvc>]),
        ("beta", "PearSvc", &[DynIntrospectable::new::<c5a::beta::PearSvcProxy>, DynIntrospectable::new::<c5b::beta::PearSvcProxy>]),
    ]),
    (include_str!("../schemas/c6.txt"), &[
        ("alpha", "AshS0", &[DynIntrospectable::new::<c6a::alpha::AshS0>, DynIntrospectable::new::<c6b::alpha::AshS0>]),
        ("alpha", "PlumGreenS1", &[DynIntrospectable::new::<c6a::alpha::PlumGreenS1>, DynIntrospectable::new::<c6b::alpha::PlumGreenS1>]),
        ("alpha", "PearE2", &[DynIntrospectable::new::<c6a::alpha::PearE2>, DynIntrospectable::new::<c6b::alpha::PearE2>]),
        ("alpha", "BlueWestN3", &[DynIntrospectable::new::<c6a::alpha::BlueWestN3>, DynIntrospectable::new::<c6b::alpha::BlueWestN3>]),
        ("alpha", "PlumN4", &[DynIntrospectable::new::<c6a::alpha::PlumN4>, DynIntrospectable::new::<c6b::alpha::PlumN4>]),
        ("beta", "ZincS0", &[DynIntrospectable::new::<c6a::beta::ZincS0>, DynIntrospectable::new::<c6b::beta::ZincS0>]),
        ("beta", "IronRedS1", &[DynIntrospectable::new::<c6a::beta::IronRedS1>, DynIntrospectable::new::<c6b::beta::IronRedS1>]),
        ("beta", "GoldS2", &[DynIntrospectable::new::<c6a::beta::GoldS2>, DynIntrospectable::new::<c6b::beta::GoldS2>]),
        ("beta", "EastN3", &[DynIntrospectable::new::<c6a::beta::EastN3>, DynIntrospectable::new::<c6b::beta::EastN3>]),
        ("beta", "ElmN4", &[DynIntrospectable::new::<c6a::beta::ElmN4>, DynIntrospectable::new::<c6b::beta::ElmN4>]),
        ("alpha", "WestSvcSouthAppleArgs", &[DynIntrospectable::new::<c6a::alpha::WestSvcSouthAppleArgs>, DynIntrospectable::new::<c6b::alpha::WestSvcSouthAppleArgs>]),
        ("alpha", "WestSvcSouthAppleOk", &[DynIntrospectable::new::<c6a::alpha::WestSvcSouthAppleOk>, DynIntrospectable::new::<c6b::alpha::WestSvcSouthAppleOk>]),
        ("alpha", "WestSvcGreenOk", &[DynIntrospectable::new::<c6a::alpha::WestSvcGreenOk>, DynIntrospectable::new::<c6b::alpha::WestSvcGreenOk>]),
        ("alpha", "WestSvcGreenError", &[DynIntrospectable::new::<c6a::alpha::WestSvcGreenError>, DynIntrospectable::new::<c6b::alpha::WestSvcGreenError>]),
        ("alpha", "WestSvcAshIronArgs", &[DynIntrospectable::new::<c6a::alpha::WestSvcAshIronArgs>, DynIntrospectable::new::<c6b::alpha::WestSvcAshIronArgs>]),
        ("beta", "SouthPearSvcWestWestArgs", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcWestWestArgs>, DynIntrospectable::new::<c6b::beta::SouthPearSvcWestWestArgs>]),
        ("beta", "SouthPearSvcWestWestOk", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcWestWestOk>, DynIntrospectable::new::<c6b::beta::SouthPearSvcWestWestOk>]),
        ("beta", "SouthPearSvcWestWestError", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcWestWestError>, DynIntrospectable::new::<c6b::beta::SouthPearSvcWestWestError>]),
        ("beta", "SouthPearSvcOakBlueArgs", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcOakBlueArgs>, DynIntrospectable::new::<c6b::beta::SouthPearSvcOakBlueArgs>]),
        ("beta", "SouthPearSvcOakBlueError", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcOakBlueError>, DynIntrospectable::new::<c6b::beta::SouthPearSvcOakBlueError>]),
        ("alpha", "WestSvc", &[DynIntrospectable::new::<c6a::alpha::WestSvc>, DynIntrospectable::new::<c6b::alpha::WestSvc>]),
        ("alpha", "WestSvc", &[DynIntrospectable::new::<c6a::alpha::WestSvcProxy>, DynIntrospectable::new::<c6b::alpha::WestSvcProxy>]),
        ("beta", "SouthPearSvc", &[DynIntrospectable::new::<c6a::beta::SouthPearSvc>, DynIntrospectable::new::<c6b::beta::SouthPearSvc>]),
        ("beta", "SouthPearSvc", &[DynIntrospectable::new::<c6a::beta::SouthPearSvcProxy>, DynIntrospectable::new::<c6b::beta::SouthPearSvcProxy>]),
    ]),
    (include_str!("../schemas/c7.txt"), &[
        ("alpha", "NorthZincS0", &[DynIntrospectable::new::<c7a::alpha::NorthZincS0>, DynIntrospectable::new::<c7b::alpha::NorthZincS0>]),
        ("alpha", "SouthE1", &[DynIntrospectable::new::<c7a::alpha::SouthE1>, DynIntrospectable::new::<c7b::alpha::SouthE1>]),
        ("alpha", "WestE2", &[DynIntrospectable::new::<c7a::alpha::WestE2>, DynIntrospectable::new::<c7b::alpha::WestE2>]),
        ("alpha", "WestZincN3", &[DynIntrospectable::new::<c7a::alpha::WestZincN3>, DynIntrospectable::new::<c7b::alpha::WestZincN3>]),
        ("beta", "ZincOakN0", &[DynIntrospectable::new::<c7a::beta::ZincOakN0>, DynIntrospectable::new::<c7b::beta::ZincOakN0>]),
        ("beta", "GoldN1", &[DynIntrospectable::new::<c7a::beta::GoldN1>, DynIntrospectable::new::<c7b::beta::GoldN1>]),
        ("beta", "NorthBlueE2", &[DynIntrospectable::new::<c7a::beta::NorthBlueE2>, DynIntrospectable::new::<c7b::beta::NorthBlueE2>]),
        ("beta", "GoldPearS3", &[DynIntrospectable::new::<c7a::beta::GoldPearS3>, DynIntrospectable::new::<c7b::beta::GoldPearS3>]),
        ("beta", "SouthN4", &[DynIntrospectable::new::<c7a::beta::SouthN4>, DynIntrospectable::new::<c7b::beta::SouthN4>]),
        ("alpha", "ElmGoldSvcGoldError", &[DynIntrospectable::new::<c7a::alpha::ElmGoldSvcGoldError>, DynIntrospectable::new::<c7b::alpha::ElmGoldSvcGoldError>]),
        ("beta", "SouthSvcGoldOk", &[DynIntrospectable::new::<c7a::beta::SouthSvcGoldOk>, DynIntrospectable::new::<c7b::beta::SouthSvcGoldOk>]),
        ("beta", "SouthSvcGoldError", &[DynIntrospectable::new::<c7a::beta::SouthSvcGoldError>, DynIntrospectable::new::<c7b::beta::SouthSvcGoldError>]),
        ("beta", "SouthSvcAshArgs", &[DynIntrospectable::new::<c7a::beta::SouthSvcAshArgs>, DynIntrospectable::new::<c7b::beta::SouthSvcAshArgs>]),
        ("beta", "SouthSvcPearError", &[DynIntrospectable::new::<c7a::beta::SouthSvcPearError>, DynIntrospectable::new::<c7b::beta::SouthSvcPearError>]),
        ("alpha", "ElmGoldSvc", &[DynIntrospectable::new::<c7a::alpha::ElmGoldSvc>, DynIntrospectable::new::<c7b::alpha::ElmGoldSvc>]),
        ("alpha", "ElmGoldSvc", &[DynIntrospectable::new::<c7a::alpha::ElmGoldSvcProxy>, DynIntrospectable::new::<c7b::alpha::ElmGoldSvcProxy>]),
        ("beta", "SouthSvc", &[DynIntrospectable::new::<c7a::beta::SouthSvc>, DynIntrospectable::new::<c7b::beta::SouthSvc>]),
        ("beta", "SouthSvc", &[DynIntrospectable::new::<c7a::beta::SouthSvcProxy>, DynIntrospectable::new::<c7b::beta::SouthSvcProxy>]),
    ]),
    (include_str!("../schemas/c8.txt"), &[
        ("alpha", "NorthN0", &[DynIntrospectable::new::<c8a::alpha::NorthN0>, DynIntrospectable::new::<c8b::alpha::NorthN0>]),
        ("alpha", "EastS1", &[DynIntrospectable::new::<c8a::alpha::EastS1>, DynIntrospectable::new::<c8b::alpha::EastS1>]),
        ("alpha", "GreenN2", &[DynIntrospectable::new::<c8a::alpha::GreenN2>, DynIntrospectable::new::<c8b::alpha::GreenN2>]),
        ("alpha", "ZincS3", &[DynIntrospectable::new::<c8a::alpha::ZincS3>, DynIntrospectable::new::<c8b::alpha::ZincS3>]),
        ("alpha", "IronE4", &[DynIntrospectable::new::<c8a::alpha::IronE4>, DynIntrospectable::new::<c8b::alpha::IronE4>]),
        ("alpha", "OakPearS5", &[DynIntrospectable::new::<c8a::alpha::OakPearS5>, DynIntrospectable::new::<c8b::alpha::OakPearS5>]),
        ("beta", "WestS0", &[DynIntrospectable::new::<c8a::beta::WestS0>, DynIntrospectable::new::<c8b::beta::WestS0>]),
        ("beta", "PearS1", &[DynIntrospectable::new::<c8a::beta::PearS1>, DynIntrospectable::new::<c8b::beta::PearS1>]),
        ("beta", "SouthS2", &[DynIntrospectable::new::<c8a::beta::SouthS2>, DynIntrospectable::new::<c8b::beta::SouthS2>]),
        ("beta", "PlumN3", &[DynIntrospectable::new::<c8a::beta::PlumN3>, DynIntrospectable::new::<c8b::beta::PlumN3>]),
        ("beta", "EastAppleE4", &[DynIntrospectable::new::<c8a::beta::EastAppleE4>, DynIntrospectable::new::<c8b::beta::EastAppleE4>]),
        ("beta", "ZincS5", &[DynIntrospectable::new::<c8a::beta::ZincS5>, DynIntrospectable::new::<c8b::beta::ZincS5>]),
        ("alpha", "GreenSvcAshZincArgs", &[DynIntrospectable::new::<c8a::alpha::GreenSvcAshZincArgs>, DynIntrospectable::new::<c8b::alpha::GreenSvcAshZincArgs>]),
        ("alpha", "GreenSvcBlueWestOk", &[DynIntrospectable::new::<c8a::alpha::GreenSvcBlueWestOk>, DynIntrospectable::new::<c8b::alpha::GreenSvcBlueWestOk>]),
        ("beta", "AshSvcAshArgs", &[DynIntrospectable::new::<c8a::beta::AshSvcAshArgs>, DynIntrospectable::new::<c8b::beta::AshSvcAshArgs>]),
        ("alpha", "GreenSvc", &[DynIntrospectable::new::<c8a::alpha::GreenSvc>, DynIntrospectable::new::<c8b::alpha::GreenSvc>]),
        ("alpha", "GreenSvc", &[DynIntrospectable::new::<c8a::alpha::GreenSvcProxy>, DynIntrospectable::new::<c8b::alpha::GreenSvcProxy>]),
        ("beta", "AshSvc", &[DynIntrospectable::new::<c8a::beta::AshSvc>, DynIntrospectable::new::<c8b::beta::AshSvc>]),
        ("beta", "AshSvc", &[DynIntrospectable::new::<c8a::beta::AshSvcProxy>, DynIntrospectable::new::<c8b::beta::AshSvcProxy>]),
    ]),
    (include_str!("../schemas/c9.txt"), &[
        ("alpha", "PlumS0", &[DynIntrospectable::new::<c9a::alpha::PlumS0>, DynIntrospectable::new::<c9b::alpha::PlumS0>]),
        ("alpha", "GoldPlumN1", &[DynIntrospectable::new::<c9a::alpha::GoldPlumN1>, DynIntrospectable::new::<c9b::alpha::GoldPlumN1>]),
        ("alpha", "GoldGreenS2", &[DynIntrospectable::new::<c9a::alpha::GoldGreenS2>, DynIntrospectable::new::<c9b::alpha::GoldGreenS2>]),
        ("alpha", "IronPearS3", &[DynIntrospectable::new::<c9a::alpha::IronPearS3>, DynIntrospectable::new::<c9b::alpha::IronPearS3>]),
        ("alpha", "BlueS4", &[DynIntrospectable::new::<c9a::alpha::BlueS4>, DynIntrospectable::new::<c9b::alpha::BlueS4>]),
        ("beta", "AppleEastS0", &[DynIntrospectable::new::<c9a::beta::AppleEastS0>, DynIntrospectable::new::<c9b::beta::AppleEastS0>]),
        ("beta", "AppleS1", &[DynIntrospectable::new::<c9a::beta::AppleS1>, DynIntrospectable::new::<c9b::beta::AppleS1>]),
        ("beta", "SouthS2", &[DynIntrospectable::new::<c9a::beta::SouthS2>, DynIntrospectable::new::<c9b::beta::SouthS2>]),
        ("beta", "IronE3", &[DynIntrospectable::new::<c9a::beta::IronE3>, DynIntrospectable::new::<c9b::beta::IronE3>]),
        ("beta", "BlueS4", &[DynIntrospectable::new::<c9a::beta::BlueS4>, DynIntrospectable::new::<c9b::beta::BlueS4>]),
        ("beta", "ZincPlumE5", &[DynIntrospectable::new::<c9a::beta::ZincPlumE5>, DynIntrospectable::new::<c9b::beta::ZincPlumE5>]),
        ("alpha", "NorthSvcGoldArgs", &[DynIntrospectable::new::<c9a::alpha::NorthSvcGoldArgs>, DynIntrospectable::new::<c9b::alpha::NorthSvcGoldArgs>]),
        ("alpha", "NorthSvcPlumNorthError", &[DynIntrospectable::new::<c9a::alpha::NorthSvcPlumNorthError>, DynIntrospectable::new::<c9b::alpha::NorthSvcPlumNorthError>]),
        ("beta", "BlueSvcGoldError", &[DynIntrospectable::new::<c9a::beta::BlueSvcGoldError>, DynIntrospectable::new::<c9b::beta::BlueSvcGoldError>]),
        ("beta", "BlueSvcAshOakArgs", &[DynIntrospectable::new::<c9a::beta::BlueSvcAshOakArgs>, DynIntrospectable::new::<c9b::beta::BlueSvcAshOakArgs>]),
        ("beta", "BlueSvcAshOakOk", &[DynIntrospectable::new::<c9a::beta::BlueSvcAshOakOk>, DynIntrospectable::new::<c9b::beta::BlueSvcAshOakOk>]),
        ("beta", "BlueSvcAshOakError", &[DynIntrospectable::new::<c9a::beta::BlueSvcAshOakError>, DynIntrospectable::new::<c9b::beta::BlueSvcAshOakError>]),
        ("beta", "BlueSvcNorthNorthOk", &[DynIntrospectable::new::<c9a::beta::BlueSvcNorthNorthOk>, DynIntrospectable::new::<c9b::beta::BlueSvcNorthNorthOk>]),
        ("beta", "BlueSvcNorthNorthError", &[DynIntrospectable::new::<c9a::beta::BlueSvcNorthNorthError>, DynIntrospectable::new::<c9b::beta::BlueSvcNorthNorthError>]),
        ("alpha", "NorthSvc", &[DynIntrospectable::new::<c9a::alpha::NorthSvc>, DynIntrospectable::new::<c9b::alpha::NorthSvc>]),
        ("alpha", "NorthSvc", &[DynIntrospectable::new::<c9a::alpha::NorthSvcProxy>, DynIntrospectable::new::<c9b::alpha::NorthSvcProxy>]),
        ("beta", "BlueSvc", &[DynIntrospectable::new::<c9a::beta::BlueSvc>, DynIntrospectable::new::<c9b::beta::BlueSvc>]),
        ("beta", "BlueSvc", &[DynIntrospectable::new::<c9a::beta::BlueSvcProxy>, DynIntrospectable::new::<c9b::beta::BlueSvcProxy>]),
    ]),
];
