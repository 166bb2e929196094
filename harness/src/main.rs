//! Executes the real cryst-symm code on sessions read as JSON lines and reports, per step,
//! the raw values it produced (or that it panicked / did not return).  It decides nothing.
use crystsymm::analyzer::SymmetryAnalyzer;
use crystsymm::pointgroup::PointGroup;
use crystsymm::reduce::Reducer;
use crystsymm::spacegroup::SpaceGroup;
use crystsymm::structure::Structure;
use crystsymm::symmop::SymmOp;
use nalgebra::{Matrix3, Vector3};
use serde_json::{json, Value};

mod proto;

fn f(v: &Value) -> f64 {
    v.as_f64().expect("number")
}
fn fopt(v: &Value, k: &str, d: f64) -> f64 {
    v.get(k).and_then(|x| x.as_f64()).unwrap_or(d)
}
/// 3x3 matrix given as three rows
fn mat(v: &Value) -> Matrix3<f64> {
    Matrix3::from_fn(|i, j| f(&v[i][j]))
}
fn imat(v: &Value) -> Matrix3<i8> {
    Matrix3::from_fn(|i, j| v[i][j].as_i64().expect("int") as i8)
}
fn vec3(v: &Value) -> Vector3<f64> {
    Vector3::new(f(&v[0]), f(&v[1]), f(&v[2]))
}
fn jm(m: &Matrix3<f64>) -> Value {
    json!((0..3)
        .map(|i| (0..3).map(|j| num(m[(i, j)])).collect::<Vec<_>>())
        .collect::<Vec<_>>())
}
fn jim(m: &Matrix3<i8>) -> Value {
    json!((0..3)
        .map(|i| (0..3).map(|j| m[(i, j)]).collect::<Vec<_>>())
        .collect::<Vec<_>>())
}
/// non-finite numbers become strings: JSON has no notation for them
fn num(x: f64) -> Value {
    if x.is_finite() {
        json!(x)
    } else {
        json!(format!("{x}"))
    }
}
fn jv(v: &Vector3<f64>) -> Value {
    json!([num(v[0]), num(v[1]), num(v[2])])
}
fn jvs(v: &[Vector3<f64>]) -> Value {
    json!(v.iter().map(jv).collect::<Vec<_>>())
}
fn jstruct(s: &Structure) -> Value {
    json!({"lattice": jm(&s.lattice), "species": s.species, "frac": jvs(&s.frac_coords), "cart": jvs(&s.coords)})
}
/// equal up to rounding
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() < 1e-9,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| close(p, q))),
        _ => a == b,
    }
}
fn symmop(v: &Value) -> SymmOp {
    SymmOp {
        rotation: imat(&v["r"]),
        translation: vec3(&v["t"]),
    }
}
fn jop(o: &SymmOp) -> Value {
    json!({"r": jim(&o.rotation), "t": jv(&o.translation)})
}

fn build(v: &Value) -> Structure {
    let species = v["species"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| s.as_str().unwrap().to_string())
        .collect();
    let coords = v["coords"].as_array().unwrap().iter().map(vec3).collect();
    let cart = v.get("is_cart").and_then(|x| x.as_bool()).unwrap_or(false);
    Structure::new(mat(&v["lattice"]), species, coords, cart)
}

fn step(cur: &mut Option<Structure>, saved: &mut Vec<Structure>, op: &Value) -> Value {
    let dtol = fopt(op, "dtol", 0.05);
    let atol = fopt(op, "atol", 5.0);
    let red = Reducer { dtol, atol };
    let sa = SymmetryAnalyzer { dtol, atol };
    let name = op["op"].as_str().unwrap();
    macro_rules! s {
        () => {
            cur.as_mut().expect("no structure")
        };
    }
    match name {
        "new" => {
            let st = build(op);
            let out = jstruct(&st);
            *cur = Some(st);
            out
        }
        "save" => {
            saved.push(s!().clone());
            json!(saved.len() - 1)
        }
        "load" => {
            *cur = Some(saved[op["slot"].as_u64().unwrap() as usize].clone());
            jstruct(s!())
        }
        "transform" => {
            let st = s!();
            st.apply_transformation(&mat(&op["m"]), &fopt(op, "tol", 0.05));
            jstruct(st)
        }
        "normalize" => {
            let st = s!();
            st.normalize_coords(&fopt(op, "tol", 0.05));
            jstruct(st)
        }
        "primitive" | "niggli" | "delaunay" | "stdconv" | "stdprim" => {
            let st = s!().clone();
            let before = jstruct(&st);
            let run = |st: &Structure| match name {
                "primitive" => red.find_primitive_cell(st),
                "niggli" => red.niggli_reduce(st, &fopt(op, "tol", 1e-5)),
                "delaunay" => red.delaunay_reduce(
                    st,
                    op.get("full").and_then(|x| x.as_bool()).unwrap_or(false),
                ),
                "stdconv" => sa.get_standard_conventional_structure(st),
                _ => sa.get_standard_primitive_structure(st),
            };
            let new = run(&st);
            let untouched = before == jstruct(&st);
            let mut out = jstruct(&new);
            out["untouched"] = json!(untouched);
            if op.get("twice").is_some() {
                out["same"] = json!(close(&jstruct(&run(&st)), &jstruct(&new)));
            }
            if !op.get("peek").and_then(|x| x.as_bool()).unwrap_or(false) {
                *cur = Some(new);
            }
            out
        }
        "sginfo" => {
            let st = s!();
            let before = jstruct(st);
            let (n, sym, sg) = sa.get_space_group_info(st);
            json!({"number": n, "symbol": sym, "ops": sg.operations.iter().map(jop).collect::<Vec<_>>(),
                   "untouched": before == jstruct(st)})
        }
        "formulas" => {
            let (a, b) = s!().formulas();
            json!({"formula": a, "reduced": b})
        }
        "minele" => {
            let (a, b, c) = s!().get_min_element();
            json!({"min": a, "inds": b, "counts": c, "num_sites": s!().num_sites()})
        }
        "census" => {
            let st = s!();
            let (formula, reduced) = st.formulas();
            let (min, inds, counts) = st.get_min_element();
            json!({"formula": formula, "reduced": reduced, "min": min, "inds": inds, "counts": counts,
                   "num_sites": st.num_sites(), "volume": num(st.volume())})
        }
        "scalars" => {
            let st = s!();
            let d = st.delaunay_matrix();
            json!({"num_sites": st.num_sites(), "a": num(st.a()), "b": num(st.b()), "c": num(st.c()),
                   "alpha": num(st.alpha()), "beta": num(st.beta()), "gamma": num(st.gamma()),
                   "volume": num(st.volume()), "metric": jm(&st.metric_tensor()),
                   "recip": jm(&st.reciprocal_lattice()),
                   "delaunay": (0..3).map(|i| (0..4).map(|j| num(d[(i, j)])).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        "tmat" => {
            let other = &saved[op["slot"].as_u64().unwrap() as usize];
            let st = s!();
            json!({"from_saved": jm(&other.get_transformation_matrix(st)), "to_saved": jm(&st.get_transformation_matrix(other))})
        }
        "tofrac" => {
            let c: Vec<_> = op["coords"].as_array().unwrap().iter().map(vec3).collect();
            jvs(&Structure::get_frac_coords(&s!().lattice, &c))
        }
        "tocart" => {
            let c: Vec<_> = op["coords"].as_array().unwrap().iter().map(vec3).collect();
            jvs(&Structure::get_cart_coords(&s!().lattice, &c))
        }
        // ---- calls without a structure
        "relate" => {
            let at = |key: &str| Structure::new(mat(&op[key]), vec!["X".to_string()], vec![Vector3::zeros()], false);
            jm(&at("from").get_transformation_matrix(&at("to")))
        }
        "opmul" => jop(&(symmop(&op["a"]) * symmop(&op["b"]))),
        "opapply" => jv(&(symmop(&op["a"]) * vec3(&op["v"]))),
        "opeq" => {
            let (a, b, t) = (symmop(&op["a"]), symmop(&op["b"]), vec3(&op["tols"]));
            json!({"ab": a.is_approx_eq(&b, &t), "ba": b.is_approx_eq(&a, &t), "aa": a.is_approx_eq(&a, &t)})
        }
        "opnorm" => {
            let mut a = symmop(&op["a"]);
            a.normalize(&vec3(&op["tols"]));
            jop(&a)
        }
        "sggen" => {
            let g: Vec<_> = op["gens"].as_array().unwrap().iter().map(symmop).collect();
            let t = vec3(&op["tols"]);
            let mut sg = SpaceGroup::from_generators(&g, &t);
            let ops: Vec<_> = sg.operations.iter().map(jop).collect();
            let mut out = json!({"ops": ops});
            if let Some(m) = op.get("m") {
                sg.apply_transformation(&mat(m), &t);
                out["transformed"] = json!(sg.operations.iter().map(jop).collect::<Vec<_>>());
            }
            out
        }
        "sgtrans" => {
            let g: Vec<_> = op["ops"].as_array().unwrap().iter().map(symmop).collect();
            let mut sg = SpaceGroup { operations: g };
            sg.apply_transformation(&mat(&op["m"]), &vec3(&op["tols"]));
            json!({"ops": sg.operations.iter().map(jop).collect::<Vec<_>>()})
        }
        "pg" => {
            let n = op["n"].as_u64().unwrap() as u8;
            let mut pg = PointGroup::from_number(&n);
            let mut out = json!({"symbol": pg.symbol, "ops": pg.operations.iter().map(jim).collect::<Vec<_>>(),
                             "gens": pg.generators.iter().map(jim).collect::<Vec<_>>()});
            if let Some(m) = op.get("m") {
                pg.apply_transformation(&mat(m));
                out["tops"] = json!(pg.operations.iter().map(jim).collect::<Vec<_>>());
                out["tgens"] = json!(pg.generators.iter().map(jim).collect::<Vec<_>>());
                out["tsymbol"] = json!(pg.symbol);
            }
            out
        }
        other => panic!("driver: unknown op {other}"),
    }
}

/// the current structure, and saved ones
type State = (Option<Structure>, Vec<Structure>);

fn main() {
    proto::serve::<State>(|s, op| step(&mut s.0, &mut s.1, op));
}
