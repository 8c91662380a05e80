"""Behaviour-preserving edits: name -> [(file, old, new)]; every check must stay quiet on each."""
B, C, F, L, A, S = ("lib/src/colourblock.rs", "lib/src/colourset.rs", "lib/src/colourfit/cluster.rs", "lib/src/lib.rs", "lib/src/alpha.rs", "lib/src/colourfit/single.rs")
M, R, V4, X, P, J = ("lib/src/math.rs", "lib/src/colourfit/range.rs", "lib/src/math/vec4.rs", "cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs")
PI_OLD = "            let a = libm::fabsf(w.x()).max(libm::fabsf(w.y()).max(libm::fabsf(w.z())));\n"
REFS = {
 "pi-16": [(M, "POWER_ITERATION_COUNT: usize = 8", "POWER_ITERATION_COUNT: usize = 16")],
 "pi-norm": [(M, PI_OLD, "            let a = libm::sqrtf(w.to_vec3().length2());\n")],
 "pi-order": [(M, "            let w = row0 * v.splat_x();\n            let w = row1 * v.splat_y() + w;\n            let w = row2 * v.splat_z() + w;\n",
                  "            let w = row2 * v.splat_z();\n            let w = row0 * v.splat_x() + w;\n            let w = w + row1 * v.splat_y();\n")],
 "pi-signs": [(M, "            (-1.0, 1.0, 1.0),\n            (1.0, -1.0, 1.0),\n            (1.0, 1.0, -1.0),\n", "            (1.0, -1.0, -1.0),\n            (-1.0, 1.0, -1.0),\n            (-1.0, -1.0, 1.0),\n")],
 "cov-div-first": [(M, "let centroid: Vec3 = points.iter().zip(weights).map(|(p, &w)| p * w).sum();",
                       "let mut centroid = Vec3::new(0.0, 0.0, 0.0);\n        for k in (0..points.len()).rev() {\n            centroid = centroid + points[k] * weights[k];\n        }")],
 "axis-negated": [(M, "        v.to_vec3()\n    }\n}\n\npub fn f32", "        v.to_vec3() * -1.0\n    }\n}\n\npub fn f32")],
 "round-half": [(M, "libm::roundf(a).max(0.0).min(limit as f32) as i32", "libm::floorf(a.max(0.0).min(limit as f32) + 0.5) as i32")],
 "range-premul": [(R, "let d = (self.weights * (values[i] - code)).length2();", "let d = (self.weights * values[i] - self.weights * *code).length2();")],
 "range-rev-scan": [(R, "for &val in values.iter().take(count).skip(1) {", "for &val in values.iter().take(count).skip(1).rev() {")],
 "range-codes": [(R, "self.start * (2.0 / 3.0) + self.end * (1.0 / 3.0),", "(self.start * 2.0 + self.end) * (1.0 / 3.0),"),
                 (R, "self.start * (1.0 / 3.0) + self.end * (2.0 / 3.0),", "(self.start + self.end * 2.0) * (1.0 / 3.0),")],
 "range-swapped": [(R, "fit.start = (grid * start + half).truncate() * gridrcp;\n        fit.end = (grid * end + half).truncate() * gridrcp;",
                       "fit.end = (grid * start + half).truncate() * gridrcp;\n        fit.start = (grid * end + half).truncate() * gridrcp;")],
 "set-first-seen": [(C, "            for j in 0..rgba.len() {\n                // no duplicates", "            for j in 0..=i {\n                // no duplicates")],
 "set-scale255": [(C, "f32::from(rgba[i][0]) / 255f32", "f32::from(rgba[i][0]) * (1f32 / 255f32)"), (C, "f32::from(rgba[i][1]) / 255f32", "f32::from(rgba[i][1]) * (1f32 / 255f32)"),
                  (C, "f32::from(rgba[i][2]) / 255f32", "f32::from(rgba[i][2]) * (1f32 / 255f32)")],
 "cluster-strict": [(F, "            dps[i] = (i, values[i].dot(axis));", "            dps[i] = (i, values[i].z() * axis.z() + values[i].y() * axis.y() + values[i].x() * axis.x());")],
 "cluster-rev": [(F, "dps.sort_unstable_by(|a, b| fcmp(a.1, b.1));", "dps.sort_unstable_by(|a, b| fcmp(b.1, a.1).reverse());")],
 "cluster-err": [(F, "let e4 = two * e3 + e1;", "let e4 = e1 + e3 + e3;")],
 "cluster-factor": [(F, "let a = ((alphax_sum * beta2_sum) - betax_sum * alphabeta_sum) * factor;", "let a = alphax_sum * beta2_sum * factor - betax_sum * alphabeta_sum * factor;")],
 "cluster-parts": [(F, "let part2 = self.xsum_wsum - part1 - part0;", "let part2 = self.xsum_wsum - (part0 + part1);")],
 "cluster-le": [(F, "if error.any_less_than(&best_error) {", "if !best_error.any_less_than(&error) && !error.x().is_nan() && iteration_index == 0 || error.any_less_than(&best_error) {")],
 "alpha-tie7": [(A, "if err5 <= err7 {", "if err5 < err7 {")],
 "alpha-lastcode": [(A, "if dist < least {", "if dist <= least {")],
 "bc2-int": None,
 "single-last": None,
 "lib-rows": [(L, "            let mut source_rgba = [[0u8; 4]; 16];\n            let output_blocks", "            let output_blocks"),
              (L, "                // build the 4x4 block of pixels\n                let mut mask", "                let mut source_rgba = [[0xA5u8; 4]; 16];\n                let mut mask")],
 "write4-equal": [(B, "} else if a > b {\n            // use indices as-is", "} else {\n            // use indices as-is")] and [(B, "    } else if a > b {\n        // use indices as-is", "    } else if a != b {\n        // use indices as-is")],
 "write3-canon": [(B, "    if a > b {\n        // swap", "    if b < a {\n        // swap")],
 "cli-exit": [(X, 'panic!("Weights must have 3 values");', '{ eprintln!("Weights must have 3 values"); std::process::exit(1) }'),
              (X, 'panic!("File is too short for an image of {}x{} pixels", width, height);', '{ eprintln!("too short"); std::process::exit(1) }'),
              (X, '_ => panic!("Unsupported DXGI format!"),', '_ => { eprintln!("Unsupported DXGI format!"); std::process::exit(3) }')],
 "cli-atomic": [(X, '    let mut outfile = File::create(outfile).expect("Failed to create output file");\n    dds.write(&mut outfile).unwrap();',
                    '    let mut bytes = Vec::new();\n    dds.write(&mut bytes).unwrap();\n    std::fs::write(outfile, bytes).expect("Failed to write output file");')],
 "cli-png-zip": [(P, "            .chunks(3)\n            .flat_map(|rgb| vec![rgb[0], rgb[1], rgb[2], 255])", "            .chunks_exact(3)\n            .flat_map(|rgb| [rgb[0], rgb[1], rgb[2], 255])")],
 "cli-norm": [(P, "        Transformations::EXPAND | Transformations::STRIP_16,", "        Transformations::normalize_to_color8(),")],
 "cli-png-opt": [(P, "    encoder.set_depth(BitDepth::Eight);", "    encoder.set_depth(BitDepth::Eight);\n    encoder.set_compression(png::Compression::Fast);\n    encoder.set_filter(png::FilterType::Paeth);")],
 "cli-tmp-rename": [(P, '    fs::write(path, encoded).expect("Failed to write output file");', '    let tmp = path.with_extension(format!("png.{}", std::process::id()));\n    if let Err(e) = fs::write(&tmp, encoded).and_then(|_| fs::rename(&tmp, path)) {\n        let _ = fs::remove_file(&tmp);\n        panic!("Failed to write output file: {}", e);\n    }')],
 "cli-read-all": [(X, "    let dds = Dds::read(&mut infile).unwrap();", "    let mut bytes = Vec::new();\n    std::io::Read::read_to_end(&mut infile, &mut bytes).unwrap();\n    let dds = Dds::read(&mut &bytes[..]).unwrap();")],
}
REFS = {k: v for k, v in REFS.items() if v}
