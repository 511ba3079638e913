// From here on the repository's `double` is the shadow scalar (symbolic mode)
// and class members are accessible to the harness.
#define private public
#define protected public
#ifdef VC_SYM
#define double vc::Sym
#define float vc::SymF
#define Vector2d SymVector2
#define Vector3d SymVector3
#define Vector4d SymVector4
#define VectorXd SymVectorX
#define Matrix2d SymMatrix2
#define Matrix3d SymMatrix3
#define Matrix4d SymMatrix4
#define MatrixXd SymMatrixX
#define RowVectorXd SymRowVectorX
#define RowVector3d SymRowVector3
#define Quaterniond SymQuaternion
#define AngleAxisd SymAngleAxis
#define Isometry3d SymIsometry3
#define Affine3d SymAffine3
#define Translation3d SymTranslation3
#endif
