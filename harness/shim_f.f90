! one thin wrapper per entry point under test

subroutine w_dli2(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dli2
  external :: dli2
  res = dli2(x)
end subroutine w_dli2

subroutine w_dli3(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dli3
  external :: dli3
  res = dli3(x)
end subroutine w_dli3

subroutine w_dli4(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dli4
  external :: dli4
  res = dli4(x)
end subroutine w_dli4

subroutine w_cdli2(z, re, im) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  complex(c_double_complex) :: z, cdli2, r
  real(c_double) :: re, im
  external :: cdli2
  r = cdli2(z)
  re = real(r)
  im = aimag(r)
end subroutine w_cdli2

subroutine w_cdli3(z, re, im) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  complex(c_double_complex) :: z, cdli3, r
  real(c_double) :: re, im
  external :: cdli3
  r = cdli3(z)
  re = real(r)
  im = aimag(r)
end subroutine w_cdli3

subroutine w_cdli4(z, re, im) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  complex(c_double_complex) :: z, cdli4, r
  real(c_double) :: re, im
  external :: cdli4
  r = cdli4(z)
  re = real(r)
  im = aimag(r)
end subroutine w_cdli4

subroutine w_cdli5(z, re, im) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  complex(c_double_complex) :: z, cdli5, r
  real(c_double) :: re, im
  external :: cdli5
  r = cdli5(z)
  re = real(r)
  im = aimag(r)
end subroutine w_cdli5

subroutine w_cdli6(z, re, im) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  complex(c_double_complex) :: z, cdli6, r
  real(c_double) :: re, im
  external :: cdli6
  r = cdli6(z)
  re = real(r)
  im = aimag(r)
end subroutine w_cdli6

subroutine w_dcl2(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dcl2
  external :: dcl2
  res = dcl2(x)
end subroutine w_dcl2

subroutine w_dcl3(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dcl3
  external :: dcl3
  res = dcl3(x)
end subroutine w_dcl3

subroutine w_dcl4(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dcl4
  external :: dcl4
  res = dcl4(x)
end subroutine w_dcl4

subroutine w_dcl5(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dcl5
  external :: dcl5
  res = dcl5(x)
end subroutine w_dcl5

subroutine w_dcl6(x, res) bind(C)
  use, intrinsic :: iso_c_binding
  implicit none
  real(c_double) :: x, res
  real(c_double) :: dcl6
  external :: dcl6
  res = dcl6(x)
end subroutine w_dcl6


