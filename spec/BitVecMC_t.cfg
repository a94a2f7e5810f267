SPECIFICATION Spec
CONSTANT N = 10
INVARIANTS CertRank CertSelect RunsAgree DirAgrees SelAgrees SdAgrees RrrAgrees RankSelectInverse
CHECK_DEADLOCK FALSE
