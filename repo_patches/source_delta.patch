From 4961ce5aa88ed7655ddc0f133b21a653d5306066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 01/14] fix: AllocInt::from_biguint accepts every value below
 2^N

The length check compared N with the bit length rounded up to whole bytes, so
a value that fits into N bits was rejected (panic) whenever N is not a multiple
of eight and the value's top byte is occupied.
---
 src/circuits/arithmetic/int.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..5c8b7ac 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -43,8 +43,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     ) -> Result<Self, BuildCircuitError> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
-        let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
+        let bits_le = (0..val.bits()).map(|i| val.bit(i)).collect::<Vec<bool>>();
         assert!(bits_le.len() <= N);
 
         let mut val_le = Vec::new();
-- 
2.43.0


From 3045bcaf349c165ff18445d58a0cc7c95ebd22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 02/14] fix: AllocFp addition reduces a sum equal to the
 modulus to zero

sum > p was tested instead of sum >= p, so x + (p - x) gave p, an unreduced
representative that does not compare equal to zero.
---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From 31599266d14b18e3691de4e702eeedcad08e7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 03/14] fix: Montgomery reduction returns t, not -t, when t is
 already below p

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 4c1ea57..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0


From ee97d85dc1ea49cd2ba98e64e5966e6b67359afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 04/14] fix: module call no longer underflows num_wire for
 pass-through modules

A module with fewer inner wires than outputs (an output that is an input, or an
output registered twice) made num_wire - input_len - output_len underflow.
---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..c7723ac 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // each output gate of the module stands for a wire counted above
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 763e9d0ca4e1240b7b571d1d26c15f3f3f9d92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 05/14] fix: evaluator keeps the value of a gate that is also
 an output

Values are dropped once all depending gates have consumed them.  A gate (or an
input) that is registered as an output and also feeds another gate was dropped
before the output was read, and eval_output failed with UnknownEvaledBit.
---
 src/evaluator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..9492ef4 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -39,12 +39,17 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
         assert_eq!(inputs.len(), circuit.input_len());
+        // every output holds its gate, so that the value outlives the gates depending on it
+        for i in 0..output_len {
+            let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(output_gate_id).or_insert(0) += 1;
+        }
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
                 Some(id) => {
                     evaled_map.insert(id, inputs[i]);
-                    num_depend_map.insert(id, circuit.get_depended_gates(&id)?.len());
+                    *num_depend_map.entry(id).or_insert(0) += circuit.get_depended_gates(&id)?.len();
                     i += 1;
                 }
                 None => {}
@@ -119,7 +124,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +143,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +173,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +203,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +233,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +265,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From b9464a3e32190151ba4e851feb733a56d99a7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 06/14] fix: BristolReader reports malformed files as errors
 instead of panicking

Gate lines with too few wires, output wires that are never defined, more
outputs than wires and overflowing totals in the header all panicked.
---
 src/bristol_converter.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..5bb7f5c 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -81,7 +81,9 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             for j in 0..input_bit {
                 self.gate_of_wire.insert(input_len_sum + j, c_ref.input()?);
             }
-            input_len_sum += input_bit;
+            input_len_sum = input_len_sum
+                .checked_add(input_bit)
+                .ok_or(BristolError::LineSplitError)?;
         }
         let third_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(3))??;
         let mut third_strs = third_strs.split_whitespace();
@@ -95,7 +97,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = usize::checked_add(output_len_sum, output_bit)
+                .ok_or(BristolError::LineSplitError)?;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
@@ -135,6 +138,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 output_wire_ids.push(output_wire_id);
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
+            let num_operand = match gate_type {
+                "XOR" | "AND" | "OR" => 2,
+                _ => 1,
+            };
+            if input_gates.len() < num_operand || output_wire_ids.is_empty() {
+                return Err(BristolError::LineSplitError);
+            }
 
             match gate_type {
                 "INV" => {
@@ -161,9 +171,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        let first_output_wire = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::LineSplitError)?;
+        for i in first_output_wire..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From 6433f8a463b7f81d3acdce2d5ad1dabac5ed4fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 07/14] fix: BristolReader propagates an I/O error on the
 skipped fourth line

---
 src/bristol_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 5bb7f5c..6ab6232 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -101,7 +101,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .ok_or(BristolError::LineSplitError)?;
         }
         //skip one row.
-        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
+        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
         for result in lines_iter {
             let l = result?;
-- 
2.43.0


From 5733bc6f99cfa3a11c0b5db360d96d61a65ee3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 08/14] fix: BristolReader forgets the wires of the previous
 file

Reusing a reader resolved wires that the new file does not define to gate ids
of the circuit read before.
---
 src/bristol_converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 6ab6232..3aa2e1b 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        // wires of a previously read file do not exist in this one
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From 1a1cb40070c81ebf58c6c019d038ecfed04331d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/14] fix: BristolReader still names an unsupported gate
 before checking its wires

---
 src/bristol_converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 3aa2e1b..ae6789a 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -142,7 +142,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
             let num_operand = match gate_type {
                 "XOR" | "AND" | "OR" => 2,
-                _ => 1,
+                "INV" | "EQ" | "EQW" => 1,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
             };
             if input_gates.len() < num_operand || output_wire_ids.is_empty() {
                 return Err(BristolError::LineSplitError);
-- 
2.43.0


From 481c5bc5ed861f7c22369d1ae1d7c291ba764d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 10/14] fix: BristolReader reads the operand of EQ as a
 constant

In the Bristol fashion format `1 1 c w EQ` assigns the constant c to wire w and
only EQW copies a wire; EQ copied the wire numbered c.
---
 src/bristol_converter.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index ae6789a..5d16d6e 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -119,17 +119,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -145,9 +141,28 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 "INV" | "EQ" | "EQW" => 1,
                 _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
             };
-            if input_gates.len() < num_operand || output_wire_ids.is_empty() {
+            if input_wire_ids.len() < num_operand || output_wire_ids.is_empty() {
                 return Err(BristolError::LineSplitError);
             }
+            if gate_type == "EQ" {
+                // the operand of EQ is a constant, not a wire
+                let value = match input_wire_ids[0] {
+                    0 => false,
+                    1 => true,
+                    _ => return Err(BristolError::LineSplitError),
+                };
+                let output_gate = c_ref.constant(value)?;
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -166,7 +181,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From 2ff9ec4505064063e79b9f4b73edcc66b6a92aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 11/14] fix: BristolNXAOWriter keeps its circuit when writing a
 module fails

---
 src/bristol_converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 5d16d6e..bbff897 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -543,8 +543,9 @@ impl<W: Write> BristolNXAOWriter<W> {
 
                 let cur_c_ref = self.c_ref.clone();
                 self.c_ref = module_circuit.clone();
-                self.write_all_gates(&mut new_wire_of_gate, const_of_wire)?;
+                let result = self.write_all_gates(&mut new_wire_of_gate, const_of_wire);
                 self.c_ref = cur_c_ref;
+                result?;
                 let first_output_id = GateId(gate_id.0 - (gate.out_index as u64));
                 for i in 0..gate.output_len() {
                     let output_wire_id = WireId(i as u64);
-- 
2.43.0


From 0680827e25fc6d652e3ead6d018408bccc5e7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 12/14] fix: BristolNXAOWriter::write flushes, so that write
 errors are not lost

---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index bbff897..9ddaeb4 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -275,6 +275,7 @@ impl<W: Write> BristolNXAOWriter<W> {
         for wire in input_len..self.last_const_wire {
             const_vals.push(const_of_wire[&wire]);
         }
+        self.writer.flush()?;
         Ok(const_vals)
     }
 
-- 
2.43.0


From b31b65f55ec84988692dd5e13bee9d561251ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 13/14] fix: BristolNXAOWriter's header counts what it writes
 and the outputs are the last wires

---
 src/bristol_converter.rs | 71 ++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 9ddaeb4..afafb5f 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -211,6 +211,8 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    gate_lines: Vec<u8>,
+    num_gate_line: usize,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -220,6 +222,8 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            gate_lines: Vec::new(),
+            num_gate_line: 0,
         }
     }
 
@@ -231,22 +235,12 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
+        // the lines of the gates are written after the header, which counts them
+        self.gate_lines.clear();
+        self.num_gate_line = 0;
+        self.num_wire = 0;
 
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
         let wire_of_gate = match wire_of_gate {
@@ -271,14 +265,56 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        self.write_outputs_last(output_len, wire_of_gate)?;
+
+        let first_line = format!("{} {}\n", self.num_gate_line, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        self.writer.write_all(&self.gate_lines)?;
+
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
-            const_vals.push(const_of_wire[&wire]);
+        for wire in input_len..num_all_input {
+            // a module without any live output leaves the wires of its constants unused
+            const_vals.push(const_of_wire.get(&wire).copied().unwrap_or(false));
         }
         self.writer.flush()?;
         Ok(const_vals)
     }
 
+    // In a bristol file, the outputs are the last wires.
+    fn write_outputs_last(
+        &mut self,
+        output_len: usize,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Result<(), BristolError> {
+        let mut output_wires = Vec::new();
+        for i in 0..output_len {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&output_gate_id]);
+        }
+        let is_last = output_wires
+            .iter()
+            .enumerate()
+            .all(|(i, wire)| wire + output_len == self.num_wire + i);
+        if !is_last {
+            for wire in output_wires {
+                let line = format!("1 1 {} {} EQW\n", wire, self.num_wire);
+                self.gate_lines.extend_from_slice(line.as_bytes());
+                self.num_gate_line += 1;
+                self.num_wire += 1;
+            }
+        }
+        Ok(())
+    }
+
     fn write_all_gates(
         &mut self,
         wire_of_gate: &mut HashMap<GateId, usize>,
@@ -580,7 +616,8 @@ impl<W: Write> BristolNXAOWriter<W> {
                     write_str = write_str + &format!("{} ", wires[i]);
                 }
                 write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
+                self.gate_lines.extend_from_slice(write_str.as_bytes());
+                self.num_gate_line += 1;
             }
             None => {}
         };
-- 
2.43.0


From ddeba0f92080e22d9f7776bbda5151fdde4e5e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 14/14] fix: pack an incomplete last group of bits instead of
 panicking

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index e2d6b02..da4c7b9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,7 +7,7 @@ pub fn bits2bytes_le(bits: &[bool]) -> Vec<u8> {
     bits.chunks(8)
         .map(|bits| {
             let mut byte: u8 = 0;
-            for i in 0..8 {
+            for i in 0..bits.len() {
                 byte += (bits[i] as u8) << i;
             }
             byte
@@ -27,7 +27,7 @@ pub fn bits2bytes_be(bits: &[bool]) -> Vec<u8> {
     bits.chunks(8)
         .map(|bits| {
             let mut byte: u8 = 0;
-            for i in 0..8 {
+            for i in 0..bits.len() {
                 byte += (bits[i] as u8) << (7 - i);
             }
             byte
-- 
2.43.0

