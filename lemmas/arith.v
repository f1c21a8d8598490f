(* Arithmetic lemmas used as axiom instances by the SMT obligations; checked by coqc on every run. *)
Require Import ZArith Znumtheory Lia.
Open Scope Z_scope.

(* SMT: (x mod (c*m)) mod m = x mod m *)
Lemma mod_mod_mul : forall x c m : Z, 0 <= x -> 0 < c -> 0 < m -> (x mod (c * m)) mod m = x mod m.
Proof.
  intros x c m Hx Hc Hm. symmetry. apply Zmod_div_mod; [assumption | nia | exists c; reflexivity].
Qed.

(* SMT: (p*m + r) div m = p and (p*m + r) mod m = r when 0 <= r < m *)
Lemma div_mod_unique : forall p r m : Z, 0 <= r < m -> (p * m + r) / m = p /\ (p * m + r) mod m = r.
Proof.
  intros p r m H. assert (m > 0) by lia. split.
  - rewrite Z.add_comm, Z.div_add by lia. rewrite Z.div_small by assumption. lia.
  - rewrite Z.add_comm, Z.mod_add by lia. apply Z.mod_small; assumption.
Qed.

(* SMT: a digit of a number below c*m is below c *)
Lemma digit_bound : forall x c m : Z, 0 <= x < c * m -> 0 < m -> 0 <= x / m < c.
Proof.
  intros x c m H Hm. split.
  - apply Z.div_pos; lia.
  - apply Z.div_lt_upper_bound; nia.
Qed.
