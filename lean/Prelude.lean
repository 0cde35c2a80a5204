-- the model: finite sequences are lists; every function of the theory is total
variable {E : Type}
def len (a : List E) : Int := a.length
def att [Inhabited E] (a : List E) (i : Int) : E := a.getD i.toNat default
def cat (a b : List E) : List E := a ++ b
def unit (x : E) : List E := [x]
def emp : List E := []
def sl (a : List E) (i j : Int) : List E := (a.drop i.toNat).take (j - i).toNat
def upd (a : List E) (i : Int) (x : E) : List E := a.set i.toNat x
def rep (x : E) (n : Int) : List E := List.replicate n.toNat x
def rev (a : List E) : List E := a.reverse
def eqs (a b : List E) : Prop := a = b
def has (a : List E) (x : E) : Prop := x ∈ a
open Classical in
noncomputable def diff [Inhabited E] (a b : List E) : Int :=
  if h : ∃ i : Int, 0 ≤ i ∧ i < len a ∧ att a i ≠ att b i then choose h else 0
open Classical in
noncomputable def wit [Inhabited E] (a : List E) (x : E) : Int :=
  if h : ∃ i : Int, 0 ≤ i ∧ i < len a ∧ att a i = x then choose h else 0
