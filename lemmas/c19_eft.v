(* C19: the operation sequences that the verifier shows the code to perform (harness/c19.cpp: ts, tp) compute the exact
   rounding error, over IEEE binary formats with gradual underflow and round to nearest, ties to even; no overflow. *)
From Coq Require Import Reals ZArith Psatz.
From Flocq Require Import Core Mult_error Pff2Flocq.
Open Scope R_scope.

Section Formats.
Variables emin prec : Z.
Hypothesis Hprec : (1 < prec)%Z.
Hypothesis Hemin : (emin <= 0)%Z.
Local Instance prec_pos : Prec_gt_0 prec.
Proof. unfold Prec_gt_0; lia. Qed.
Definition rnd := round radix2 (FLT_exp emin prec) ZnearestE.
Definition fmt := generic_format radix2 (FLT_exp emin prec).

Lemma even_sym : forall x : Z, negb (Z.even x) = negb (negb (Z.even (- (x + 1)))).
Proof. intros x. rewrite Z.even_opp, Z.even_add. destruct (Z.even x); reflexivity. Qed.

(* ts: a = x + y; b = a - x; e = (x - (a - b)) + (y - b) *)
Theorem two_sum_exact : forall x y, fmt x -> fmt y ->
  let a := rnd (x + y) in
  let b := rnd (a - x) in
  a + rnd (rnd (x - rnd (a - b)) + rnd (y - b)) = x + y.
Proof.
  intros x y Fx Fy.
  exact (TwoSum_correct emin prec (fun z => negb (Z.even z)) Hprec Hemin even_sym x y Fx Fy).
Qed.

(* tp: a = x * y; e = fma(x, y, -a), no underflow of the error *)
Theorem two_prod_exact : forall x y, fmt x -> fmt y ->
  (x * y <> 0 -> bpow radix2 (emin + 2 * prec - 1) <= Rabs (x * y)) ->
  let a := rnd (x * y) in
  a + rnd (x * y + - a) = x * y.
Proof.
  intros x y Fx Fy H a.
  assert (G : fmt (a - x * y)).
  { exact (mult_error_FLT radix2 emin prec ZnearestE x y Fx Fy H). }
  apply generic_format_opp in G.
  replace (- (a - x * y)) with (x * y + - a) in G by ring.
  unfold rnd at 1.
  rewrite round_generic; [ring | apply valid_rnd_N | exact G].
Qed.
End Formats.

Definition two_sum_f64 := two_sum_exact (-1074) 53 eq_refl ltac:(lia).
Definition two_sum_f32 := two_sum_exact (-149) 24 eq_refl ltac:(lia).
Definition two_prod_f64 := two_prod_exact (-1074) 53 eq_refl.
Definition two_prod_f32 := two_prod_exact (-149) 24 eq_refl.
Print Assumptions two_sum_f64.
Print Assumptions two_prod_f64.
