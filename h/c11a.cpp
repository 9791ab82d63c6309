#include "c11.h"

reflectTypeImpl(c11::Num) { reflectPlumbing(); reflectField(v); reflectOperators(); type_->addFunction("operator bool()", &T_::operator bool); }
reflectTypeImpl(c11::Deref) { reflectPlumbing(); reflectOperators(); type_->addFunction("operator bool()", &T_::operator bool); }
reflectTypeImpl(c11::Child) { reflectParent(c11::Num); reflectPlumbing(); }
