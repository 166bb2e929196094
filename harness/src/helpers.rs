//! Executes the helper functions and lookups of cryst-symm, like main.rs does with the rest of it.
use crystsymm::data::core::{BravaisType, Centering, LatticeSystem};
use crystsymm::data::pointgroup::BRAVAIS_TO_HOLOHEDRY_NUM;
use crystsymm::pointgroup::PointGroup;
use crystsymm::utils;
use nalgebra::{Matrix3, Vector3};
use serde_json::{json, Value};
use std::str::FromStr;

mod proto;

fn nums(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}

fn bravais(name: &str) -> BravaisType {
    match name {
        "aP" => BravaisType::aP,
        "mP" => BravaisType::mP,
        "mC" => BravaisType::mC,
        "oP" => BravaisType::oP,
        "oC" => BravaisType::oC,
        "oI" => BravaisType::oI,
        "oF" => BravaisType::oF,
        "tP" => BravaisType::tP,
        "tI" => BravaisType::tI,
        "hR" => BravaisType::hR,
        "hP" => BravaisType::hP,
        "cP" => BravaisType::cP,
        "cI" => BravaisType::cI,
        "cF" => BravaisType::cF,
        other => panic!("driver: {other}"),
    }
}

fn step(_: &mut (), op: &Value) -> Value {
    let int = |k: &str| op[k].as_i64().unwrap();
    let num = |k: &str| op[k].as_f64().unwrap();
    match op["op"].as_str().unwrap() {
        "decode" => json!(utils::decode(int("e") as u32, int("base") as u8, int("sub") as i8, int("len") as i8)),
        "decodeop" => {
            let (r, t) = utils::decode_spg_op(int("e") as u32);
            json!({"r": r, "t": t})
        }
        "parse" => {
            let text = op["text"].as_str().unwrap();
            let got = match op["what"].as_str().unwrap() {
                "centering" => Centering::from_str(text).ok().map(|x| x.to_string()),
                _ => LatticeSystem::from_str(text).ok().map(|x| x.to_string()),
            };
            json!(got.unwrap_or("none".to_string()))
        }
        "bravais" => {
            let b = bravais(op["name"].as_str().unwrap());
            let pg = PointGroup::from_number(BRAVAIS_TO_HOLOHEDRY_NUM.get(&b).unwrap());
            json!({"name": b.to_string(), "centering": b.centering().to_string(),
                   "system": b.lattice_system().to_string(), "symbol": pg.symbol, "order": pg.operations.len()})
        }
        "numeq" => {
            let (a, b, tol) = (num("a"), num("b"), num("tol"));
            json!([utils::cust_eq(&a, &b, &tol), utils::approx_equal(&a, &b, &tol)])
        }
        "listeq" => {
            let (a, b, tol) = (nums(&op["a"]), nums(&op["b"]), num("tol"));
            json!(utils::approx_equal_iter(a.iter(), b.iter(), &tol))
        }
        "mateq" => {
            let m = |k: &str| Matrix3::from_iterator(nums(&op[k]));
            json!(utils::compare_matrices(&m("a"), &m("b"), &nums(&op["tols"])))
        }
        "signs" => {
            let (n, z) = utils::num_negative_zero(&nums(&op["a"]), &num("tol"));
            json!([n, z])
        }
        "wrap" => {
            let mut v: Vec<Vector3<f64>> =
                op["v"].as_array().unwrap().iter().map(|x| Vector3::from_iterator(nums(x))).collect();
            utils::normalize_frac_vectors(&mut v, &Vector3::from_iterator(nums(&op["tols"])));
            json!(v.iter().map(|x| vec![x[0], x[1], x[2]]).collect::<Vec<_>>())
        }
        other => panic!("driver: unknown op {other}"),
    }
}

fn main() {
    proto::serve::<()>(step);
}
