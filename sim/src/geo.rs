//! Model of GeoTIFF keys: generation and an independent resolver.
use std::collections::BTreeMap;

use async_tiff::geo::GeoKeyDirectory;

use crate::core::*;
use crate::tiff::{draw_f64, Dir, Val};

#[derive(Clone, Debug, PartialEq)]
pub enum GeoVal {
    Short(u16),
    Double(u64),
    Text(String),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    S,
    D,
    T,
}
const KEYS: &[(u16, Kind)] = &[
    (1024, Kind::S),
    (1025, Kind::S),
    (1026, Kind::T),
    (2048, Kind::S),
    (2049, Kind::T),
    (2050, Kind::S),
    (2051, Kind::S),
    (2052, Kind::S),
    (2053, Kind::D),
    (2054, Kind::S),
    (2055, Kind::D),
    (2056, Kind::S),
    (2057, Kind::D),
    (2058, Kind::D),
    (2059, Kind::D),
    (2060, Kind::S),
    (2061, Kind::D),
    (3072, Kind::S),
    (3073, Kind::T),
    (3074, Kind::S),
    (3075, Kind::S),
    (3076, Kind::S),
    (3077, Kind::D),
    (3078, Kind::D),
    (3079, Kind::D),
    (3080, Kind::D),
    (3081, Kind::D),
    (3082, Kind::D),
    (3083, Kind::D),
    (3084, Kind::D),
    (3085, Kind::D),
    (3086, Kind::D),
    (3087, Kind::D),
    (3088, Kind::D),
    (3089, Kind::D),
    (3090, Kind::D),
    (3091, Kind::D),
    (3092, Kind::D),
    (3093, Kind::D),
    (3094, Kind::D),
    (3095, Kind::D),
    (4096, Kind::S),
    (4097, Kind::T),
    (4098, Kind::S),
    (4099, Kind::S),
];
const UNKNOWN: &[u16] = &[1023, 1027, 2047, 2062, 3071, 3096, 4095, 4100, 5120, 0, 65535, 2063, 3000];

/// Give a directory a random geo key set, in random key order, with parameter blocks.
pub fn add_geo(d: &mut Dir) {
    let density = pick(&[150u64, 500, 950]);
    let mut keys: Vec<(u16, Kind)> = KEYS.iter().copied().filter(|_| chance(density)).collect();
    for _ in 0..small(3) {
        let k = pick(UNKNOWN);
        if !keys.iter().any(|x| x.0 == k) {
            keys.push((k, pick(&[Kind::S, Kind::D, Kind::T])));
        }
    }
    if below(50) == 49 {
        // Many keys of other conventions.
        for k in 0..200 + below(200) {
            keys.push((10_000 + k as u16 * 3, pick(&[Kind::S, Kind::D, Kind::T])));
        }
    }
    keys.sort_by_key(|k| k.0);
    if below(4) == 3 {
        shuffle(&mut keys);
    }
    let mut text = String::new();
    let mut dbl: Vec<f64> = vec![];
    let mut dir: Vec<u16> = vec![1, 1, below(2) as u16, keys.len() as u16];
    // Parameter blocks may hold values no key refers to.
    if coin() {
        text.push_str("unused|");
    }
    for _ in 0..below(3) {
        dbl.push(draw_f64());
    }
    for (id, k) in keys {
        match k {
            Kind::S => dir.extend([id, 0, 1, raw64() as u16]),
            // Several values: only for keys nobody knows.
            Kind::D if !KEYS.iter().any(|x| x.0 == id) && coin() => {
                let n = small(5);
                dir.extend([id, 34736, n as u16, dbl.len() as u16]);
                (0..n).for_each(|_| dbl.push(draw_f64()));
            }
            Kind::D => {
                if !dbl.is_empty() && below(6) == 5 {
                    // shares a value with another key
                    dir.extend([id, 34736, 1, below(dbl.len() as u64) as u16]);
                } else {
                    dir.extend([id, 34736, 1, dbl.len() as u16]);
                    dbl.push(draw_f64());
                }
            }
            Kind::T => {
                let n = small(40);
                let mut s: String = (0..n).map(|_| pick(&['a', 'Z', ' ', '/', '=', '9', '.', '(', '"', ','])).collect();
                if below(12) == 11 {
                    // Separators of the text's own: only the closing one is not part of the value.
                    s.insert(below(s.len() as u64 + 1) as usize, '|');
                    s.push_str(pick(&["", "|", "||"]));
                }
                let at = text.len() as u16;
                text.push_str(&s);
                let sep = s.ends_with('|') || below(8) != 7;
                if sep {
                    text.push('|');
                }
                dir.extend([id, 34737, s.len() as u16 + sep as u16, at]);
            }
        }
    }
    let has_text = dir[4..].chunks(4).any(|k| k[1] == 34737);
    d.set(34735, Val::Short(dir));
    if has_text || !text.is_empty() {
        d.set(34737, Val::Ascii(text));
    }
    if !dbl.is_empty() {
        d.set(34736, Val::Double(dbl));
    }
}

/// What the stored key directory says.
pub fn resolve(d: &Dir) -> BTreeMap<u16, GeoVal> {
    let mut out = BTreeMap::new();
    let dir = match &d.tags[&34735] {
        Val::Short(v) => v,
        _ => panic!("harness: geo key directory type"),
    };
    let n = dir[3] as usize;
    for i in 0..n {
        let e = &dir[4 + 4 * i..8 + 4 * i];
        if !KEYS.iter().any(|k| k.0 == e[0]) {
            continue;
        }
        let (cnt, off) = (e[2] as usize, e[3] as usize);
        let v = match e[1] {
            0 => GeoVal::Short(e[3]),
            34736 => GeoVal::Double(d.tags[&34736].doubles()[off].to_bits()),
            34737 => {
                let s = &d.tags[&34737].text()[off..off + cnt];
                GeoVal::Text(s.strip_suffix('|').unwrap_or(s).to_string())
            }
            _ => panic!("harness: geo key location"),
        };
        out.insert(e[0], v);
    }
    out
}

/// What the library reports, in the same form.
pub fn reported(g: &GeoKeyDirectory) -> BTreeMap<u16, GeoVal> {
    let mut out = BTreeMap::new();
    let mut s = |id: u16, v: &Option<u16>| {
        if let Some(v) = v {
            out.insert(id, GeoVal::Short(*v));
        }
    };
    s(1024, &g.model_type);
    s(1025, &g.raster_type);
    s(2048, &g.geographic_type);
    s(2050, &g.geog_geodetic_datum);
    s(2051, &g.geog_prime_meridian);
    s(2052, &g.geog_linear_units);
    s(2054, &g.geog_angular_units);
    s(2056, &g.geog_ellipsoid);
    s(2060, &g.geog_azimuth_units);
    s(3072, &g.projected_type);
    s(3074, &g.projection);
    s(3075, &g.proj_coord_trans);
    s(3076, &g.proj_linear_units);
    s(4096, &g.vertical);
    s(4098, &g.vertical_datum);
    s(4099, &g.vertical_units);
    let mut t = |id: u16, v: &Option<String>| {
        if let Some(v) = v {
            out.insert(id, GeoVal::Text(v.clone()));
        }
    };
    t(1026, &g.citation);
    t(2049, &g.geog_citation);
    t(3073, &g.proj_citation);
    t(4097, &g.vertical_citation);
    let mut f = |id: u16, v: &Option<f64>| {
        if let Some(v) = v {
            out.insert(id, GeoVal::Double(v.to_bits()));
        }
    };
    f(2053, &g.geog_linear_unit_size);
    f(2055, &g.geog_angular_unit_size);
    f(2057, &g.geog_semi_major_axis);
    f(2058, &g.geog_semi_minor_axis);
    f(2059, &g.geog_inv_flattening);
    f(2061, &g.geog_prime_meridian_long);
    f(3077, &g.proj_linear_unit_size);
    f(3078, &g.proj_std_parallel1);
    f(3079, &g.proj_std_parallel2);
    f(3080, &g.proj_nat_origin_long);
    f(3081, &g.proj_nat_origin_lat);
    f(3082, &g.proj_false_easting);
    f(3083, &g.proj_false_northing);
    f(3084, &g.proj_false_origin_long);
    f(3085, &g.proj_false_origin_lat);
    f(3086, &g.proj_false_origin_easting);
    f(3087, &g.proj_false_origin_northing);
    f(3088, &g.proj_center_long);
    f(3089, &g.proj_center_lat);
    f(3090, &g.proj_center_easting);
    f(3091, &g.proj_center_northing);
    f(3092, &g.proj_scale_at_nat_origin);
    f(3093, &g.proj_scale_at_center);
    f(3094, &g.proj_azimuth_angle);
    f(3095, &g.proj_straight_vert_pole_long);
    out
}

pub fn check_geo(g: &GeoKeyDirectory, d: &Dir) -> Result<(), String> {
    let want = resolve(d);
    let have = reported(g);
    if want != have {
        for (k, v) in &want {
            if have.get(k) != Some(v) {
                return Err(format!("geo key {k}: got {:?}, stored {v:?}", have.get(k)));
            }
        }
        for (k, v) in &have {
            if !want.contains_key(k) {
                return Err(format!("geo key {k}: got {v:?}, not stored"));
            }
        }
    }
    let short = |k: u16| match want.get(&k) {
        Some(GeoVal::Short(x)) => Some(*x),
        _ => None,
    };
    let epsg = short(3072).or(short(2048));
    if g.epsg_code() != epsg {
        return Err(format!("epsg_code: got {:?}, stored {:?}", g.epsg_code(), epsg));
    }
    Ok(())
}
