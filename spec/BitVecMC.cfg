SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS CertRank CertSelect RunsAgree DirAgrees SelAgrees SdAgrees RrrAgrees RankSelectInverse
CHECK_DEADLOCK FALSE
