// generated by tools/gen_k.py from calibration runs: error bounds per region
#pragma once
namespace acc { struct KEntry { const char* key; double K; };
static const KEntry ktable[] = {
{ "ABEL2|LI:C2C:2//24", 7.68 },
{ "ABEL2|LI:C2C:2//53", 7.74 },
{ "ABEL2|LI:C2C:2//64", 7.91 },
{ "ABEL2|LI:R2R:2//24", 8.15 },
{ "ABEL2|LI:R2R:2//53", 21 },
{ "ABEL2|LI:R2R:2//64", 8.77 },
{ "CL:NR2R:0/-29/53/t<=0.1", 20.7 },
{ "CL:NR2R:0/-29/53/t<=0.5", 12.7 },
{ "CL:NR2R:0/-29/53/t<=1", 10.3 },
{ "CL:NR2R:0/-29/53/t<=1.3", 9.6 },
{ "CL:NR2R:0/-29/53/t<=1.5", 9.29 },
{ "CL:NR2R:0/-29/53/t<=1.64", 9.53 },
{ "CL:NR2R:0/-29/53/t<=1.8", 9.09 },
{ "CL:NR2R:0/-29/53/t<=1e-06", 15.4 },
{ "CL:NR2R:0/-29/53/t<=2.1", 8.59 },
{ "CL:NR2R:0/-29/53/t<=2.6", 8.12 },
{ "CL:NR2R:0/-29/53/t<=2.95", 8.59 },
{ "CL:NR2R:0/-29/53/t<=3.1", 9.44 },
{ "CL:NR2R:0/-29/53/t<=3.141", 16.4 },
{ "CL:NR2R:0/-29/53/t>3.141", 10.6 },
{ "CL:NR2R:0/-29/53/u<=0.1", 23.4 },
{ "CL:NR2R:0/-29/53/u<=0.5", 8.9 },
{ "CL:NR2R:0/-29/53/u<=1", 7.24 },
{ "CL:NR2R:0/-29/53/u<=1.3", 7.52 },
{ "CL:NR2R:0/-29/53/u<=1.5", 8.49 },
{ "CL:NR2R:0/-29/53/u<=1.64", 9.29 },
{ "CL:NR2R:0/-29/53/u<=1.8", 8.65 },
{ "CL:NR2R:0/-29/53/u<=1e-06", 9.93 },
{ "CL:NR2R:0/-29/53/u<=2.1", 7.61 },
{ "CL:NR2R:0/-29/53/u<=2.6", 7.71 },
{ "CL:NR2R:0/-29/53/u<=2.95", 8.41 },
{ "CL:NR2R:0/-29/53/u<=3.1", 12.2 },
{ "CL:NR2R:0/-29/53/v<=0.1", 17.1 },
{ "CL:NR2R:0/-29/53/v<=0.5", 8.63 },
{ "CL:NR2R:0/-29/53/v<=1", 7.06 },
{ "CL:NR2R:0/-29/53/v<=1.3", 7.01 },
{ "CL:NR2R:0/-29/53/v<=1.5", 7.92 },
{ "CL:NR2R:0/-29/53/v<=1.64", 9.43 },
{ "CL:NR2R:0/-29/53/v<=1.8", 7.61 },
{ "CL:NR2R:0/-29/53/v<=1e-06", 9.93 },
{ "CL:NR2R:0/-29/53/v<=2.1", 7.16 },
{ "CL:NR2R:0/-29/53/v<=2.6", 6.84 },
{ "CL:NR2R:0/-29/53/v<=2.95", 7.28 },
{ "CL:NR2R:0/-29/53/v<=3.1", 9.17 },
{ "CL:NR2R:0/-29/53/v<=3.141", 13.4 },
{ "CL:NR2R:0/-29/53/v>3.141", 10.2 },
{ "CL:NR2R:0/1/53/t<=0.1", 6.96 },
{ "CL:NR2R:0/1/53/t<=0.5", 6.96 },
{ "CL:NR2R:0/1/53/t<=1", 6.9 },
{ "CL:NR2R:0/1/53/t<=1.3", 7.1 },
{ "CL:NR2R:0/1/53/t<=1.5", 6.93 },
{ "CL:NR2R:0/1/53/t<=1.64", 6.86 },
{ "CL:NR2R:0/1/53/t<=1.8", 6.81 },
{ "CL:NR2R:0/1/53/t<=1e-06", 7 },
{ "CL:NR2R:0/1/53/t<=2.1", 6.94 },
{ "CL:NR2R:0/1/53/t<=2.6", 6.99 },
{ "CL:NR2R:0/1/53/t<=2.95", 7.18 },
{ "CL:NR2R:0/1/53/t<=3.1", 7.35 },
{ "CL:NR2R:0/1/53/t<=3.141", 7.42 },
{ "CL:NR2R:0/1/53/t>3.141", 7.4 },
{ "CL:NR2R:0/1/53/u<=0.1", 6.36 },
{ "CL:NR2R:0/1/53/u<=0.5", 6.13 },
{ "CL:NR2R:0/1/53/u<=1", 6.17 },
{ "CL:NR2R:0/1/53/u<=1.3", 6.31 },
{ "CL:NR2R:0/1/53/u<=1.5", 6.38 },
{ "CL:NR2R:0/1/53/u<=1.64", 6.4 },
{ "CL:NR2R:0/1/53/u<=1.8", 6.42 },
{ "CL:NR2R:0/1/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/1/53/u<=2.1", 6.9 },
{ "CL:NR2R:0/1/53/u<=2.6", 7.08 },
{ "CL:NR2R:0/1/53/u<=2.95", 7.23 },
{ "CL:NR2R:0/1/53/u<=3.1", 7.35 },
{ "CL:NR2R:0/1/53/v<=0.1", 6.37 },
{ "CL:NR2R:0/1/53/v<=0.5", 6.4 },
{ "CL:NR2R:0/1/53/v<=1", 6.42 },
{ "CL:NR2R:0/1/53/v<=1.3", 6.46 },
{ "CL:NR2R:0/1/53/v<=1.5", 6.48 },
{ "CL:NR2R:0/1/53/v<=1.64", 6.48 },
{ "CL:NR2R:0/1/53/v<=1.8", 6.48 },
{ "CL:NR2R:0/1/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/1/53/v<=2.1", 6.57 },
{ "CL:NR2R:0/1/53/v<=2.6", 6.67 },
{ "CL:NR2R:0/1/53/v<=2.95", 6.9 },
{ "CL:NR2R:0/1/53/v<=3.1", 7.2 },
{ "CL:NR2R:0/1/53/v<=3.141", 7.42 },
{ "CL:NR2R:0/1/53/v>3.141", 7.41 },
{ "CL:NR2R:0/10/53/t<=0.1", 450 },
{ "CL:NR2R:0/10/53/t<=0.5", 76.1 },
{ "CL:NR2R:0/10/53/t<=1", 23.6 },
{ "CL:NR2R:0/10/53/t<=1.3", 17.7 },
{ "CL:NR2R:0/10/53/t<=1.5", 19.2 },
{ "CL:NR2R:0/10/53/t<=1.64", 21.1 },
{ "CL:NR2R:0/10/53/t<=1.8", 19.8 },
{ "CL:NR2R:0/10/53/t<=1e-06", 377 },
{ "CL:NR2R:0/10/53/t<=2.1", 13.1 },
{ "CL:NR2R:0/10/53/t<=2.6", 9.88 },
{ "CL:NR2R:0/10/53/t<=2.95", 8.59 },
{ "CL:NR2R:0/10/53/t<=3.1", 6.68 },
{ "CL:NR2R:0/10/53/t<=3.141", 6.57 },
{ "CL:NR2R:0/10/53/t>3.141", 6.92 },
{ "CL:NR2R:0/10/53/u<=0.1", 7.12 },
{ "CL:NR2R:0/10/53/u<=0.5", 7.18 },
{ "CL:NR2R:0/10/53/u<=1", 7.78 },
{ "CL:NR2R:0/10/53/u<=1.3", 8.83 },
{ "CL:NR2R:0/10/53/u<=1.5", 18.3 },
{ "CL:NR2R:0/10/53/u<=1.64", 18.8 },
{ "CL:NR2R:0/10/53/u<=1.8", 15.9 },
{ "CL:NR2R:0/10/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/10/53/u<=2.1", 9.71 },
{ "CL:NR2R:0/10/53/u<=2.6", 8.67 },
{ "CL:NR2R:0/10/53/u<=2.95", 7.8 },
{ "CL:NR2R:0/10/53/u<=3.1", 7.17 },
{ "CL:NR2R:0/10/53/v<=0.1", 7.2 },
{ "CL:NR2R:0/10/53/v<=0.5", 7.33 },
{ "CL:NR2R:0/10/53/v<=1", 7.9 },
{ "CL:NR2R:0/10/53/v<=1.3", 8.33 },
{ "CL:NR2R:0/10/53/v<=1.5", 14.7 },
{ "CL:NR2R:0/10/53/v<=1.64", 17.2 },
{ "CL:NR2R:0/10/53/v<=1.8", 11 },
{ "CL:NR2R:0/10/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/10/53/v<=2.1", 8.34 },
{ "CL:NR2R:0/10/53/v<=2.6", 7.54 },
{ "CL:NR2R:0/10/53/v<=2.95", 6.76 },
{ "CL:NR2R:0/10/53/v<=3.1", 6.48 },
{ "CL:NR2R:0/10/53/v<=3.141", 6.4 },
{ "CL:NR2R:0/10/53/v>3.141", 6.35 },
{ "CL:NR2R:0/11/53/t<=0.1", 36.5 },
{ "CL:NR2R:0/11/53/t<=0.5", 28.9 },
{ "CL:NR2R:0/11/53/t<=1", 21.2 },
{ "CL:NR2R:0/11/53/t<=1.3", 14 },
{ "CL:NR2R:0/11/53/t<=1.5", 8.23 },
{ "CL:NR2R:0/11/53/t<=1.64", 6.72 },
{ "CL:NR2R:0/11/53/t<=1.8", 7.31 },
{ "CL:NR2R:0/11/53/t<=1e-06", 14.3 },
{ "CL:NR2R:0/11/53/t<=2.1", 8.46 },
{ "CL:NR2R:0/11/53/t<=2.6", 8.95 },
{ "CL:NR2R:0/11/53/t<=2.95", 12.2 },
{ "CL:NR2R:0/11/53/t<=3.1", 14.8 },
{ "CL:NR2R:0/11/53/t<=3.141", 15.8 },
{ "CL:NR2R:0/11/53/t>3.141", 13.4 },
{ "CL:NR2R:0/11/53/u<=0.1", 33.2 },
{ "CL:NR2R:0/11/53/u<=0.5", 17.3 },
{ "CL:NR2R:0/11/53/u<=1", 7.87 },
{ "CL:NR2R:0/11/53/u<=1.3", 7.14 },
{ "CL:NR2R:0/11/53/u<=1.5", 6.55 },
{ "CL:NR2R:0/11/53/u<=1.64", 6.32 },
{ "CL:NR2R:0/11/53/u<=1.8", 6.41 },
{ "CL:NR2R:0/11/53/u<=1e-06", 17.1 },
{ "CL:NR2R:0/11/53/u<=2.1", 7.22 },
{ "CL:NR2R:0/11/53/u<=2.6", 8.79 },
{ "CL:NR2R:0/11/53/u<=2.95", 12.1 },
{ "CL:NR2R:0/11/53/u<=3.1", 14.2 },
{ "CL:NR2R:0/11/53/v<=0.1", 34.7 },
{ "CL:NR2R:0/11/53/v<=0.5", 13.2 },
{ "CL:NR2R:0/11/53/v<=1", 7.41 },
{ "CL:NR2R:0/11/53/v<=1.3", 6.9 },
{ "CL:NR2R:0/11/53/v<=1.5", 6.65 },
{ "CL:NR2R:0/11/53/v<=1.64", 6.42 },
{ "CL:NR2R:0/11/53/v<=1.8", 6.5 },
{ "CL:NR2R:0/11/53/v<=1e-06", 17.3 },
{ "CL:NR2R:0/11/53/v<=2.1", 6.66 },
{ "CL:NR2R:0/11/53/v<=2.6", 7.04 },
{ "CL:NR2R:0/11/53/v<=2.95", 7.81 },
{ "CL:NR2R:0/11/53/v<=3.1", 10.7 },
{ "CL:NR2R:0/11/53/v<=3.141", 15.3 },
{ "CL:NR2R:0/11/53/v>3.141", 13.8 },
{ "CL:NR2R:0/12/53/t<=0.1", 77.1 },
{ "CL:NR2R:0/12/53/t<=0.5", 24.7 },
{ "CL:NR2R:0/12/53/t<=1", 15.2 },
{ "CL:NR2R:0/12/53/t<=1.3", 11.9 },
{ "CL:NR2R:0/12/53/t<=1.5", 12.7 },
{ "CL:NR2R:0/12/53/t<=1.64", 14.8 },
{ "CL:NR2R:0/12/53/t<=1.8", 11.3 },
{ "CL:NR2R:0/12/53/t<=1e-06", 64.2 },
{ "CL:NR2R:0/12/53/t<=2.1", 9.58 },
{ "CL:NR2R:0/12/53/t<=2.6", 8.47 },
{ "CL:NR2R:0/12/53/t<=2.95", 7.34 },
{ "CL:NR2R:0/12/53/t<=3.1", 6.51 },
{ "CL:NR2R:0/12/53/t<=3.141", 6.57 },
{ "CL:NR2R:0/12/53/t>3.141", 6.92 },
{ "CL:NR2R:0/12/53/u<=0.1", 6.35 },
{ "CL:NR2R:0/12/53/u<=0.5", 6.6 },
{ "CL:NR2R:0/12/53/u<=1", 7.39 },
{ "CL:NR2R:0/12/53/u<=1.3", 7.99 },
{ "CL:NR2R:0/12/53/u<=1.5", 10.1 },
{ "CL:NR2R:0/12/53/u<=1.64", 11.8 },
{ "CL:NR2R:0/12/53/u<=1.8", 8.82 },
{ "CL:NR2R:0/12/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/12/53/u<=2.1", 8.25 },
{ "CL:NR2R:0/12/53/u<=2.6", 7.96 },
{ "CL:NR2R:0/12/53/u<=2.95", 7.55 },
{ "CL:NR2R:0/12/53/u<=3.1", 7.01 },
{ "CL:NR2R:0/12/53/v<=0.1", 6.35 },
{ "CL:NR2R:0/12/53/v<=0.5", 6.81 },
{ "CL:NR2R:0/12/53/v<=1", 7.12 },
{ "CL:NR2R:0/12/53/v<=1.3", 7.42 },
{ "CL:NR2R:0/12/53/v<=1.5", 8.38 },
{ "CL:NR2R:0/12/53/v<=1.64", 12.2 },
{ "CL:NR2R:0/12/53/v<=1.8", 8.72 },
{ "CL:NR2R:0/12/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/12/53/v<=2.1", 7.64 },
{ "CL:NR2R:0/12/53/v<=2.6", 7.08 },
{ "CL:NR2R:0/12/53/v<=2.95", 6.64 },
{ "CL:NR2R:0/12/53/v<=3.1", 6.37 },
{ "CL:NR2R:0/12/53/v<=3.141", 6.38 },
{ "CL:NR2R:0/12/53/v>3.141", 6.35 },
{ "CL:NR2R:0/2/53/t<=0.1", 7.71 },
{ "CL:NR2R:0/2/53/t<=0.5", 8 },
{ "CL:NR2R:0/2/53/t<=1", 8.67 },
{ "CL:NR2R:0/2/53/t<=1.3", 8.2 },
{ "CL:NR2R:0/2/53/t<=1.5", 7.73 },
{ "CL:NR2R:0/2/53/t<=1.64", 8.86 },
{ "CL:NR2R:0/2/53/t<=1.8", 8.68 },
{ "CL:NR2R:0/2/53/t<=1e-06", 7.47 },
{ "CL:NR2R:0/2/53/t<=2.1", 8.46 },
{ "CL:NR2R:0/2/53/t<=2.6", 8.09 },
{ "CL:NR2R:0/2/53/t<=2.95", 7.07 },
{ "CL:NR2R:0/2/53/t<=3.1", 6.96 },
{ "CL:NR2R:0/2/53/t<=3.141", 6.95 },
{ "CL:NR2R:0/2/53/t>3.141", 6.92 },
{ "CL:NR2R:0/2/53/u<=0.1", 6.35 },
{ "CL:NR2R:0/2/53/u<=0.5", 6.35 },
{ "CL:NR2R:0/2/53/u<=1", 8.21 },
{ "CL:NR2R:0/2/53/u<=1.3", 7.96 },
{ "CL:NR2R:0/2/53/u<=1.5", 7.06 },
{ "CL:NR2R:0/2/53/u<=1.64", 7.67 },
{ "CL:NR2R:0/2/53/u<=1.8", 7.56 },
{ "CL:NR2R:0/2/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/2/53/u<=2.1", 7.74 },
{ "CL:NR2R:0/2/53/u<=2.6", 7.64 },
{ "CL:NR2R:0/2/53/u<=2.95", 7.25 },
{ "CL:NR2R:0/2/53/u<=3.1", 7.03 },
{ "CL:NR2R:0/2/53/v<=0.1", 6.69 },
{ "CL:NR2R:0/2/53/v<=0.5", 6.65 },
{ "CL:NR2R:0/2/53/v<=1", 7.95 },
{ "CL:NR2R:0/2/53/v<=1.3", 7.98 },
{ "CL:NR2R:0/2/53/v<=1.5", 6.95 },
{ "CL:NR2R:0/2/53/v<=1.64", 7.27 },
{ "CL:NR2R:0/2/53/v<=1.8", 7.09 },
{ "CL:NR2R:0/2/53/v<=1e-06", 6.37 },
{ "CL:NR2R:0/2/53/v<=2.1", 7.06 },
{ "CL:NR2R:0/2/53/v<=2.6", 6.88 },
{ "CL:NR2R:0/2/53/v<=2.95", 6.57 },
{ "CL:NR2R:0/2/53/v<=3.1", 6.42 },
{ "CL:NR2R:0/2/53/v<=3.141", 6.37 },
{ "CL:NR2R:0/2/53/v>3.141", 6.35 },
{ "CL:NR2R:0/200+/53/t<=0.1", 6.5 },
{ "CL:NR2R:0/200+/53/t<=0.5", 5.51 },
{ "CL:NR2R:0/200+/53/t<=1", 6.53 },
{ "CL:NR2R:0/200+/53/t<=1.3", 6.38 },
{ "CL:NR2R:0/200+/53/t<=1.5", 6.45 },
{ "CL:NR2R:0/200+/53/t<=1.64", 6.5 },
{ "CL:NR2R:0/200+/53/t<=1.8", 6.45 },
{ "CL:NR2R:0/200+/53/t<=1e-06", 5.5 },
{ "CL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "CL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "CL:NR2R:0/200+/53/t<=2.95", 6.32 },
{ "CL:NR2R:0/200+/53/t<=3.1", 6.57 },
{ "CL:NR2R:0/200+/53/t<=3.141", 6.57 },
{ "CL:NR2R:0/200+/53/t>3.141", 6.92 },
{ "CL:NR2R:0/200+/53/u<=0.1", 6.5 },
{ "CL:NR2R:0/200+/53/u<=0.5", 6.31 },
{ "CL:NR2R:0/200+/53/u<=1", 6.16 },
{ "CL:NR2R:0/200+/53/u<=1.3", 6.24 },
{ "CL:NR2R:0/200+/53/u<=1.5", 6.38 },
{ "CL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "CL:NR2R:0/200+/53/u<=1.8", 6.39 },
{ "CL:NR2R:0/200+/53/u<=1e-06", 6.5 },
{ "CL:NR2R:0/200+/53/u<=2.1", 6.5 },
{ "CL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "CL:NR2R:0/200+/53/u<=2.95", 6.56 },
{ "CL:NR2R:0/200+/53/u<=3.1", 6.57 },
{ "CL:NR2R:0/200+/53/v<=0.1", 6.5 },
{ "CL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "CL:NR2R:0/200+/53/v<=1", 6.38 },
{ "CL:NR2R:0/200+/53/v<=1.3", 6.37 },
{ "CL:NR2R:0/200+/53/v<=1.5", 6.42 },
{ "CL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "CL:NR2R:0/200+/53/v<=1.8", 6.41 },
{ "CL:NR2R:0/200+/53/v<=1e-06", 6.5 },
{ "CL:NR2R:0/200+/53/v<=2.1", 6.36 },
{ "CL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "CL:NR2R:0/200+/53/v<=2.95", 6.37 },
{ "CL:NR2R:0/200+/53/v<=3.1", 6.42 },
{ "CL:NR2R:0/200+/53/v<=3.141", 6.5 },
{ "CL:NR2R:0/200+/53/v>3.141", 6.5 },
{ "CL:NR2R:0/3/53/t<=0.1", 7.21 },
{ "CL:NR2R:0/3/53/t<=0.5", 7.5 },
{ "CL:NR2R:0/3/53/t<=1", 8.21 },
{ "CL:NR2R:0/3/53/t<=1.3", 10.6 },
{ "CL:NR2R:0/3/53/t<=1.5", 13.9 },
{ "CL:NR2R:0/3/53/t<=1.64", 14.5 },
{ "CL:NR2R:0/3/53/t<=1.8", 7.39 },
{ "CL:NR2R:0/3/53/t<=1e-06", 7.2 },
{ "CL:NR2R:0/3/53/t<=2.1", 7.73 },
{ "CL:NR2R:0/3/53/t<=2.6", 7.95 },
{ "CL:NR2R:0/3/53/t<=2.95", 10.1 },
{ "CL:NR2R:0/3/53/t<=3.1", 14.2 },
{ "CL:NR2R:0/3/53/t<=3.141", 14.3 },
{ "CL:NR2R:0/3/53/t>3.141", 14.4 },
{ "CL:NR2R:0/3/53/u<=0.1", 7.2 },
{ "CL:NR2R:0/3/53/u<=0.5", 6.45 },
{ "CL:NR2R:0/3/53/u<=1", 6.47 },
{ "CL:NR2R:0/3/53/u<=1.3", 6.99 },
{ "CL:NR2R:0/3/53/u<=1.5", 7.31 },
{ "CL:NR2R:0/3/53/u<=1.64", 7.56 },
{ "CL:NR2R:0/3/53/u<=1.8", 6.51 },
{ "CL:NR2R:0/3/53/u<=1e-06", 7.2 },
{ "CL:NR2R:0/3/53/u<=2.1", 7.29 },
{ "CL:NR2R:0/3/53/u<=2.6", 7.59 },
{ "CL:NR2R:0/3/53/u<=2.95", 9.19 },
{ "CL:NR2R:0/3/53/u<=3.1", 11.3 },
{ "CL:NR2R:0/3/53/v<=0.1", 7.2 },
{ "CL:NR2R:0/3/53/v<=0.5", 6.66 },
{ "CL:NR2R:0/3/53/v<=1", 6.65 },
{ "CL:NR2R:0/3/53/v<=1.3", 6.92 },
{ "CL:NR2R:0/3/53/v<=1.5", 7.04 },
{ "CL:NR2R:0/3/53/v<=1.64", 7.19 },
{ "CL:NR2R:0/3/53/v<=1.8", 6.58 },
{ "CL:NR2R:0/3/53/v<=1e-06", 7.2 },
{ "CL:NR2R:0/3/53/v<=2.1", 6.74 },
{ "CL:NR2R:0/3/53/v<=2.6", 6.83 },
{ "CL:NR2R:0/3/53/v<=2.95", 7.97 },
{ "CL:NR2R:0/3/53/v<=3.1", 10.1 },
{ "CL:NR2R:0/3/53/v<=3.141", 15 },
{ "CL:NR2R:0/3/53/v>3.141", 15.4 },
{ "CL:NR2R:0/30-199/53/t<=0.1", 8.07 },
{ "CL:NR2R:0/30-199/53/t<=0.5", 7.44 },
{ "CL:NR2R:0/30-199/53/t<=1", 7.42 },
{ "CL:NR2R:0/30-199/53/t<=1.3", 7.06 },
{ "CL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "CL:NR2R:0/30-199/53/t<=1.64", 7.37 },
{ "CL:NR2R:0/30-199/53/t<=1.8", 7.25 },
{ "CL:NR2R:0/30-199/53/t<=1e-06", 7.08 },
{ "CL:NR2R:0/30-199/53/t<=2.1", 7 },
{ "CL:NR2R:0/30-199/53/t<=2.6", 6.72 },
{ "CL:NR2R:0/30-199/53/t<=2.95", 6.75 },
{ "CL:NR2R:0/30-199/53/t<=3.1", 7.22 },
{ "CL:NR2R:0/30-199/53/t<=3.141", 7.31 },
{ "CL:NR2R:0/30-199/53/t>3.141", 7.19 },
{ "CL:NR2R:0/30-199/53/u<=0.1", 8.05 },
{ "CL:NR2R:0/30-199/53/u<=0.5", 6.79 },
{ "CL:NR2R:0/30-199/53/u<=1", 6.39 },
{ "CL:NR2R:0/30-199/53/u<=1.3", 6.59 },
{ "CL:NR2R:0/30-199/53/u<=1.5", 6.96 },
{ "CL:NR2R:0/30-199/53/u<=1.64", 7.44 },
{ "CL:NR2R:0/30-199/53/u<=1.8", 6.99 },
{ "CL:NR2R:0/30-199/53/u<=1e-06", 8.08 },
{ "CL:NR2R:0/30-199/53/u<=2.1", 6.77 },
{ "CL:NR2R:0/30-199/53/u<=2.6", 6.79 },
{ "CL:NR2R:0/30-199/53/u<=2.95", 6.96 },
{ "CL:NR2R:0/30-199/53/u<=3.1", 7.16 },
{ "CL:NR2R:0/30-199/53/v<=0.1", 8.06 },
{ "CL:NR2R:0/30-199/53/v<=0.5", 6.82 },
{ "CL:NR2R:0/30-199/53/v<=1", 6.53 },
{ "CL:NR2R:0/30-199/53/v<=1.3", 6.59 },
{ "CL:NR2R:0/30-199/53/v<=1.5", 6.89 },
{ "CL:NR2R:0/30-199/53/v<=1.64", 7.39 },
{ "CL:NR2R:0/30-199/53/v<=1.8", 6.92 },
{ "CL:NR2R:0/30-199/53/v<=1e-06", 8.08 },
{ "CL:NR2R:0/30-199/53/v<=2.1", 6.66 },
{ "CL:NR2R:0/30-199/53/v<=2.6", 6.46 },
{ "CL:NR2R:0/30-199/53/v<=2.95", 6.47 },
{ "CL:NR2R:0/30-199/53/v<=3.1", 6.81 },
{ "CL:NR2R:0/30-199/53/v<=3.141", 7.27 },
{ "CL:NR2R:0/30-199/53/v>3.141", 7.18 },
{ "CL:NR2R:0/4/53/t<=0.1", 7.07 },
{ "CL:NR2R:0/4/53/t<=0.5", 7.3 },
{ "CL:NR2R:0/4/53/t<=1", 7.94 },
{ "CL:NR2R:0/4/53/t<=1.3", 10.6 },
{ "CL:NR2R:0/4/53/t<=1.5", 17.6 },
{ "CL:NR2R:0/4/53/t<=1.64", 17.6 },
{ "CL:NR2R:0/4/53/t<=1.8", 11.3 },
{ "CL:NR2R:0/4/53/t<=1e-06", 7.07 },
{ "CL:NR2R:0/4/53/t<=2.1", 8.84 },
{ "CL:NR2R:0/4/53/t<=2.6", 7.97 },
{ "CL:NR2R:0/4/53/t<=2.95", 7.09 },
{ "CL:NR2R:0/4/53/t<=3.1", 6.97 },
{ "CL:NR2R:0/4/53/t<=3.141", 6.94 },
{ "CL:NR2R:0/4/53/t>3.141", 6.92 },
{ "CL:NR2R:0/4/53/u<=0.1", 6.35 },
{ "CL:NR2R:0/4/53/u<=0.5", 6.24 },
{ "CL:NR2R:0/4/53/u<=1", 6.9 },
{ "CL:NR2R:0/4/53/u<=1.3", 8.31 },
{ "CL:NR2R:0/4/53/u<=1.5", 16.3 },
{ "CL:NR2R:0/4/53/u<=1.64", 13.5 },
{ "CL:NR2R:0/4/53/u<=1.8", 8.47 },
{ "CL:NR2R:0/4/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/4/53/u<=2.1", 7.61 },
{ "CL:NR2R:0/4/53/u<=2.6", 7.61 },
{ "CL:NR2R:0/4/53/u<=2.95", 7.29 },
{ "CL:NR2R:0/4/53/u<=3.1", 7.07 },
{ "CL:NR2R:0/4/53/v<=0.1", 6.41 },
{ "CL:NR2R:0/4/53/v<=0.5", 6.41 },
{ "CL:NR2R:0/4/53/v<=1", 6.6 },
{ "CL:NR2R:0/4/53/v<=1.3", 7.56 },
{ "CL:NR2R:0/4/53/v<=1.5", 16.9 },
{ "CL:NR2R:0/4/53/v<=1.64", 12.3 },
{ "CL:NR2R:0/4/53/v<=1.8", 7.58 },
{ "CL:NR2R:0/4/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/4/53/v<=2.1", 7.08 },
{ "CL:NR2R:0/4/53/v<=2.6", 6.85 },
{ "CL:NR2R:0/4/53/v<=2.95", 6.57 },
{ "CL:NR2R:0/4/53/v<=3.1", 6.43 },
{ "CL:NR2R:0/4/53/v<=3.141", 6.39 },
{ "CL:NR2R:0/4/53/v>3.141", 6.35 },
{ "CL:NR2R:0/5/53/t<=0.1", 14.2 },
{ "CL:NR2R:0/5/53/t<=0.5", 13.9 },
{ "CL:NR2R:0/5/53/t<=1", 8.59 },
{ "CL:NR2R:0/5/53/t<=1.3", 7.98 },
{ "CL:NR2R:0/5/53/t<=1.5", 7.77 },
{ "CL:NR2R:0/5/53/t<=1.64", 7.87 },
{ "CL:NR2R:0/5/53/t<=1.8", 7.46 },
{ "CL:NR2R:0/5/53/t<=1e-06", 8.9 },
{ "CL:NR2R:0/5/53/t<=2.1", 7.64 },
{ "CL:NR2R:0/5/53/t<=2.6", 7.79 },
{ "CL:NR2R:0/5/53/t<=2.95", 9 },
{ "CL:NR2R:0/5/53/t<=3.1", 12.5 },
{ "CL:NR2R:0/5/53/t<=3.141", 13.2 },
{ "CL:NR2R:0/5/53/t>3.141", 13.3 },
{ "CL:NR2R:0/5/53/u<=0.1", 13 },
{ "CL:NR2R:0/5/53/u<=0.5", 8.65 },
{ "CL:NR2R:0/5/53/u<=1", 6.77 },
{ "CL:NR2R:0/5/53/u<=1.3", 6.48 },
{ "CL:NR2R:0/5/53/u<=1.5", 6.52 },
{ "CL:NR2R:0/5/53/u<=1.64", 6.59 },
{ "CL:NR2R:0/5/53/u<=1.8", 6.51 },
{ "CL:NR2R:0/5/53/u<=1e-06", 8.9 },
{ "CL:NR2R:0/5/53/u<=2.1", 7.29 },
{ "CL:NR2R:0/5/53/u<=2.6", 7.74 },
{ "CL:NR2R:0/5/53/u<=2.95", 8.84 },
{ "CL:NR2R:0/5/53/u<=3.1", 10.9 },
{ "CL:NR2R:0/5/53/v<=0.1", 13.7 },
{ "CL:NR2R:0/5/53/v<=0.5", 8.22 },
{ "CL:NR2R:0/5/53/v<=1", 6.64 },
{ "CL:NR2R:0/5/53/v<=1.3", 6.57 },
{ "CL:NR2R:0/5/53/v<=1.5", 6.6 },
{ "CL:NR2R:0/5/53/v<=1.64", 6.65 },
{ "CL:NR2R:0/5/53/v<=1.8", 6.58 },
{ "CL:NR2R:0/5/53/v<=1e-06", 8.9 },
{ "CL:NR2R:0/5/53/v<=2.1", 6.74 },
{ "CL:NR2R:0/5/53/v<=2.6", 6.84 },
{ "CL:NR2R:0/5/53/v<=2.95", 7.66 },
{ "CL:NR2R:0/5/53/v<=3.1", 8.74 },
{ "CL:NR2R:0/5/53/v<=3.141", 15.1 },
{ "CL:NR2R:0/5/53/v>3.141", 15 },
{ "CL:NR2R:0/6/53/t<=0.1", 8.53 },
{ "CL:NR2R:0/6/53/t<=0.5", 9.54 },
{ "CL:NR2R:0/6/53/t<=1", 8.77 },
{ "CL:NR2R:0/6/53/t<=1.3", 9.07 },
{ "CL:NR2R:0/6/53/t<=1.5", 12.9 },
{ "CL:NR2R:0/6/53/t<=1.64", 14.2 },
{ "CL:NR2R:0/6/53/t<=1.8", 10.4 },
{ "CL:NR2R:0/6/53/t<=1e-06", 7.74 },
{ "CL:NR2R:0/6/53/t<=2.1", 8.5 },
{ "CL:NR2R:0/6/53/t<=2.6", 8.06 },
{ "CL:NR2R:0/6/53/t<=2.95", 7.13 },
{ "CL:NR2R:0/6/53/t<=3.1", 6.96 },
{ "CL:NR2R:0/6/53/t<=3.141", 6.96 },
{ "CL:NR2R:0/6/53/t>3.141", 6.92 },
{ "CL:NR2R:0/6/53/u<=0.1", 6.36 },
{ "CL:NR2R:0/6/53/u<=0.5", 6.4 },
{ "CL:NR2R:0/6/53/u<=1", 6.93 },
{ "CL:NR2R:0/6/53/u<=1.3", 7.67 },
{ "CL:NR2R:0/6/53/u<=1.5", 10.1 },
{ "CL:NR2R:0/6/53/u<=1.64", 13.2 },
{ "CL:NR2R:0/6/53/u<=1.8", 8.65 },
{ "CL:NR2R:0/6/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/6/53/u<=2.1", 7.8 },
{ "CL:NR2R:0/6/53/u<=2.6", 7.66 },
{ "CL:NR2R:0/6/53/u<=2.95", 7.33 },
{ "CL:NR2R:0/6/53/u<=3.1", 7.08 },
{ "CL:NR2R:0/6/53/v<=0.1", 6.39 },
{ "CL:NR2R:0/6/53/v<=0.5", 6.49 },
{ "CL:NR2R:0/6/53/v<=1", 6.66 },
{ "CL:NR2R:0/6/53/v<=1.3", 7.39 },
{ "CL:NR2R:0/6/53/v<=1.5", 8.93 },
{ "CL:NR2R:0/6/53/v<=1.64", 12 },
{ "CL:NR2R:0/6/53/v<=1.8", 8.01 },
{ "CL:NR2R:0/6/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/6/53/v<=2.1", 7.04 },
{ "CL:NR2R:0/6/53/v<=2.6", 6.94 },
{ "CL:NR2R:0/6/53/v<=2.95", 6.59 },
{ "CL:NR2R:0/6/53/v<=3.1", 6.43 },
{ "CL:NR2R:0/6/53/v<=3.141", 6.37 },
{ "CL:NR2R:0/6/53/v>3.141", 6.35 },
{ "CL:NR2R:0/7/53/t<=0.1", 11.5 },
{ "CL:NR2R:0/7/53/t<=0.5", 11.4 },
{ "CL:NR2R:0/7/53/t<=1", 8.53 },
{ "CL:NR2R:0/7/53/t<=1.3", 8.37 },
{ "CL:NR2R:0/7/53/t<=1.5", 8.35 },
{ "CL:NR2R:0/7/53/t<=1.64", 8.8 },
{ "CL:NR2R:0/7/53/t<=1.8", 8.98 },
{ "CL:NR2R:0/7/53/t<=1e-06", 8.09 },
{ "CL:NR2R:0/7/53/t<=2.1", 12.4 },
{ "CL:NR2R:0/7/53/t<=2.6", 33.8 },
{ "CL:NR2R:0/7/53/t<=2.95", 88.8 },
{ "CL:NR2R:0/7/53/t<=3.1", 175 },
{ "CL:NR2R:0/7/53/t<=3.141", 254 },
{ "CL:NR2R:0/7/53/t>3.141", 245 },
{ "CL:NR2R:0/7/53/u<=0.1", 10.3 },
{ "CL:NR2R:0/7/53/u<=0.5", 8.13 },
{ "CL:NR2R:0/7/53/u<=1", 6.71 },
{ "CL:NR2R:0/7/53/u<=1.3", 6.61 },
{ "CL:NR2R:0/7/53/u<=1.5", 6.78 },
{ "CL:NR2R:0/7/53/u<=1.64", 6.97 },
{ "CL:NR2R:0/7/53/u<=1.8", 7.13 },
{ "CL:NR2R:0/7/53/u<=1e-06", 8.09 },
{ "CL:NR2R:0/7/53/u<=2.1", 8.83 },
{ "CL:NR2R:0/7/53/u<=2.6", 27.2 },
{ "CL:NR2R:0/7/53/u<=2.95", 77.9 },
{ "CL:NR2R:0/7/53/u<=3.1", 170 },
{ "CL:NR2R:0/7/53/v<=0.1", 10.1 },
{ "CL:NR2R:0/7/53/v<=0.5", 8.18 },
{ "CL:NR2R:0/7/53/v<=1", 6.87 },
{ "CL:NR2R:0/7/53/v<=1.3", 6.7 },
{ "CL:NR2R:0/7/53/v<=1.5", 6.72 },
{ "CL:NR2R:0/7/53/v<=1.64", 6.81 },
{ "CL:NR2R:0/7/53/v<=1.8", 6.9 },
{ "CL:NR2R:0/7/53/v<=1e-06", 8.09 },
{ "CL:NR2R:0/7/53/v<=2.1", 7.58 },
{ "CL:NR2R:0/7/53/v<=2.6", 12.4 },
{ "CL:NR2R:0/7/53/v<=2.95", 42.2 },
{ "CL:NR2R:0/7/53/v<=3.1", 107 },
{ "CL:NR2R:0/7/53/v<=3.141", 179 },
{ "CL:NR2R:0/7/53/v>3.141", 263 },
{ "CL:NR2R:0/8/53/t<=0.1", 8.04 },
{ "CL:NR2R:0/8/53/t<=0.5", 8.1 },
{ "CL:NR2R:0/8/53/t<=1", 8.21 },
{ "CL:NR2R:0/8/53/t<=1.3", 8.84 },
{ "CL:NR2R:0/8/53/t<=1.5", 13.3 },
{ "CL:NR2R:0/8/53/t<=1.64", 16.8 },
{ "CL:NR2R:0/8/53/t<=1.8", 14.3 },
{ "CL:NR2R:0/8/53/t<=1e-06", 7.52 },
{ "CL:NR2R:0/8/53/t<=2.1", 12.8 },
{ "CL:NR2R:0/8/53/t<=2.6", 18.8 },
{ "CL:NR2R:0/8/53/t<=2.95", 38.2 },
{ "CL:NR2R:0/8/53/t<=3.1", 50.8 },
{ "CL:NR2R:0/8/53/t<=3.141", 52.1 },
{ "CL:NR2R:0/8/53/t>3.141", 57 },
{ "CL:NR2R:0/8/53/u<=0.1", 6.35 },
{ "CL:NR2R:0/8/53/u<=0.5", 6.28 },
{ "CL:NR2R:0/8/53/u<=1", 6.79 },
{ "CL:NR2R:0/8/53/u<=1.3", 7.65 },
{ "CL:NR2R:0/8/53/u<=1.5", 9.99 },
{ "CL:NR2R:0/8/53/u<=1.64", 15 },
{ "CL:NR2R:0/8/53/u<=1.8", 11.3 },
{ "CL:NR2R:0/8/53/u<=1e-06", 6.35 },
{ "CL:NR2R:0/8/53/u<=2.1", 8.83 },
{ "CL:NR2R:0/8/53/u<=2.6", 13.3 },
{ "CL:NR2R:0/8/53/u<=2.95", 31.5 },
{ "CL:NR2R:0/8/53/u<=3.1", 46.6 },
{ "CL:NR2R:0/8/53/v<=0.1", 6.38 },
{ "CL:NR2R:0/8/53/v<=0.5", 6.38 },
{ "CL:NR2R:0/8/53/v<=1", 6.56 },
{ "CL:NR2R:0/8/53/v<=1.3", 7.1 },
{ "CL:NR2R:0/8/53/v<=1.5", 9.61 },
{ "CL:NR2R:0/8/53/v<=1.64", 14.6 },
{ "CL:NR2R:0/8/53/v<=1.8", 8.85 },
{ "CL:NR2R:0/8/53/v<=1e-06", 6.35 },
{ "CL:NR2R:0/8/53/v<=2.1", 7.94 },
{ "CL:NR2R:0/8/53/v<=2.6", 7.9 },
{ "CL:NR2R:0/8/53/v<=2.95", 10.4 },
{ "CL:NR2R:0/8/53/v<=3.1", 19.8 },
{ "CL:NR2R:0/8/53/v<=3.141", 18.6 },
{ "CL:NR2R:0/8/53/v>3.141", 18.9 },
{ "CL:NR2R:0/9/53/t<=0.1", 10.8 },
{ "CL:NR2R:0/9/53/t<=0.5", 8.21 },
{ "CL:NR2R:0/9/53/t<=1", 8.06 },
{ "CL:NR2R:0/9/53/t<=1.3", 7.69 },
{ "CL:NR2R:0/9/53/t<=1.5", 7.35 },
{ "CL:NR2R:0/9/53/t<=1.64", 7.92 },
{ "CL:NR2R:0/9/53/t<=1.8", 8.08 },
{ "CL:NR2R:0/9/53/t<=1e-06", 7.87 },
{ "CL:NR2R:0/9/53/t<=2.1", 8.45 },
{ "CL:NR2R:0/9/53/t<=2.6", 18.4 },
{ "CL:NR2R:0/9/53/t<=2.95", 45 },
{ "CL:NR2R:0/9/53/t<=3.1", 98.3 },
{ "CL:NR2R:0/9/53/t<=3.141", 118 },
{ "CL:NR2R:0/9/53/t>3.141", 123 },
{ "CL:NR2R:0/9/53/u<=0.1", 8.88 },
{ "CL:NR2R:0/9/53/u<=0.5", 7.35 },
{ "CL:NR2R:0/9/53/u<=1", 6.57 },
{ "CL:NR2R:0/9/53/u<=1.3", 6.38 },
{ "CL:NR2R:0/9/53/u<=1.5", 6.48 },
{ "CL:NR2R:0/9/53/u<=1.64", 6.67 },
{ "CL:NR2R:0/9/53/u<=1.8", 6.88 },
{ "CL:NR2R:0/9/53/u<=1e-06", 7.87 },
{ "CL:NR2R:0/9/53/u<=2.1", 7.19 },
{ "CL:NR2R:0/9/53/u<=2.6", 12 },
{ "CL:NR2R:0/9/53/u<=2.95", 42.4 },
{ "CL:NR2R:0/9/53/u<=3.1", 93.8 },
{ "CL:NR2R:0/9/53/v<=0.1", 8.82 },
{ "CL:NR2R:0/9/53/v<=0.5", 7.43 },
{ "CL:NR2R:0/9/53/v<=1", 6.69 },
{ "CL:NR2R:0/9/53/v<=1.3", 6.55 },
{ "CL:NR2R:0/9/53/v<=1.5", 6.47 },
{ "CL:NR2R:0/9/53/v<=1.64", 6.49 },
{ "CL:NR2R:0/9/53/v<=1.8", 6.52 },
{ "CL:NR2R:0/9/53/v<=1e-06", 7.87 },
{ "CL:NR2R:0/9/53/v<=2.1", 6.67 },
{ "CL:NR2R:0/9/53/v<=2.6", 7.94 },
{ "CL:NR2R:0/9/53/v<=2.95", 26.3 },
{ "CL:NR2R:0/9/53/v<=3.1", 62.7 },
{ "CL:NR2R:0/9/53/v<=3.141", 111 },
{ "CL:NR2R:0/9/53/v>3.141", 137 },
{ "CL:R2R:1//53/t<=0.1", 6.96 },
{ "CL:R2R:1//53/t<=0.5", 6.96 },
{ "CL:R2R:1//53/t<=1", 6.9 },
{ "CL:R2R:1//53/t<=1.3", 7.1 },
{ "CL:R2R:1//53/t<=1.5", 6.93 },
{ "CL:R2R:1//53/t<=1.64", 6.86 },
{ "CL:R2R:1//53/t<=1.8", 6.81 },
{ "CL:R2R:1//53/t<=1e-06", 7 },
{ "CL:R2R:1//53/t<=2.1", 6.94 },
{ "CL:R2R:1//53/t<=2.6", 6.99 },
{ "CL:R2R:1//53/t<=2.95", 7.18 },
{ "CL:R2R:1//53/t<=3.1", 7.35 },
{ "CL:R2R:1//53/t<=3.141", 7.42 },
{ "CL:R2R:1//53/t>3.141", 7.4 },
{ "CL:R2R:1//53/u<=0.1", 6.36 },
{ "CL:R2R:1//53/u<=0.5", 6.13 },
{ "CL:R2R:1//53/u<=1", 6.17 },
{ "CL:R2R:1//53/u<=1.3", 6.31 },
{ "CL:R2R:1//53/u<=1.5", 6.38 },
{ "CL:R2R:1//53/u<=1.64", 6.4 },
{ "CL:R2R:1//53/u<=1.8", 6.42 },
{ "CL:R2R:1//53/u<=1e-06", 6.35 },
{ "CL:R2R:1//53/u<=2.1", 6.9 },
{ "CL:R2R:1//53/u<=2.6", 7.08 },
{ "CL:R2R:1//53/u<=2.95", 7.23 },
{ "CL:R2R:1//53/u<=3.1", 7.35 },
{ "CL:R2R:1//53/v<=0.1", 6.37 },
{ "CL:R2R:1//53/v<=0.5", 6.4 },
{ "CL:R2R:1//53/v<=1", 6.42 },
{ "CL:R2R:1//53/v<=1.3", 6.46 },
{ "CL:R2R:1//53/v<=1.5", 6.48 },
{ "CL:R2R:1//53/v<=1.64", 6.48 },
{ "CL:R2R:1//53/v<=1.8", 6.48 },
{ "CL:R2R:1//53/v<=1e-06", 6.35 },
{ "CL:R2R:1//53/v<=2.1", 6.57 },
{ "CL:R2R:1//53/v<=2.6", 6.67 },
{ "CL:R2R:1//53/v<=2.95", 6.9 },
{ "CL:R2R:1//53/v<=3.1", 7.2 },
{ "CL:R2R:1//53/v<=3.141", 7.42 },
{ "CL:R2R:1//53/v>3.141", 7.41 },
{ "CL:R2R:2//53/t<=0.1", 7.71 },
{ "CL:R2R:2//53/t<=0.5", 7 },
{ "CL:R2R:2//53/t<=1", 7.6 },
{ "CL:R2R:2//53/t<=1.3", 8.2 },
{ "CL:R2R:2//53/t<=1.5", 7.73 },
{ "CL:R2R:2//53/t<=1.64", 8.86 },
{ "CL:R2R:2//53/t<=1.8", 8.62 },
{ "CL:R2R:2//53/t<=1e-06", 6.47 },
{ "CL:R2R:2//53/t<=2.1", 8.46 },
{ "CL:R2R:2//53/t<=2.6", 8.04 },
{ "CL:R2R:2//53/t<=2.95", 7.07 },
{ "CL:R2R:2//53/t<=3.1", 6.96 },
{ "CL:R2R:2//53/t<=3.141", 6.95 },
{ "CL:R2R:2//53/t>3.141", 6.92 },
{ "CL:R2R:2//53/u<=0.1", 6.35 },
{ "CL:R2R:2//53/u<=0.5", 6.35 },
{ "CL:R2R:2//53/u<=1", 8.21 },
{ "CL:R2R:2//53/u<=1.3", 7.96 },
{ "CL:R2R:2//53/u<=1.5", 7.04 },
{ "CL:R2R:2//53/u<=1.64", 7.67 },
{ "CL:R2R:2//53/u<=1.8", 7.43 },
{ "CL:R2R:2//53/u<=1e-06", 6.35 },
{ "CL:R2R:2//53/u<=2.1", 7.74 },
{ "CL:R2R:2//53/u<=2.6", 7.64 },
{ "CL:R2R:2//53/u<=2.95", 7.25 },
{ "CL:R2R:2//53/u<=3.1", 7.03 },
{ "CL:R2R:2//53/v<=0.1", 6.69 },
{ "CL:R2R:2//53/v<=0.5", 6.65 },
{ "CL:R2R:2//53/v<=1", 7.95 },
{ "CL:R2R:2//53/v<=1.3", 7.98 },
{ "CL:R2R:2//53/v<=1.5", 6.95 },
{ "CL:R2R:2//53/v<=1.64", 6.21 },
{ "CL:R2R:2//53/v<=1.8", 7.09 },
{ "CL:R2R:2//53/v<=1e-06", 6.37 },
{ "CL:R2R:2//53/v<=2.1", 7 },
{ "CL:R2R:2//53/v<=2.6", 6.88 },
{ "CL:R2R:2//53/v<=2.95", 6.57 },
{ "CL:R2R:2//53/v<=3.1", 6.42 },
{ "CL:R2R:2//53/v<=3.141", 6.37 },
{ "CL:R2R:2//53/v>3.141", 6.35 },
{ "CL:R2R:2//64/t<=0.1", 7.78 },
{ "CL:R2R:2//64/t<=0.5", 8.05 },
{ "CL:R2R:2//64/t<=1", 8.7 },
{ "CL:R2R:2//64/t<=1.3", 8.31 },
{ "CL:R2R:2//64/t<=1.5", 7.75 },
{ "CL:R2R:2//64/t<=1.64", 13.7 },
{ "CL:R2R:2//64/t<=1.8", 12.8 },
{ "CL:R2R:2//64/t<=1e-06", 6.66 },
{ "CL:R2R:2//64/t<=2.1", 8.67 },
{ "CL:R2R:2//64/t<=2.6", 7.96 },
{ "CL:R2R:2//64/t<=2.95", 7.09 },
{ "CL:R2R:2//64/t<=3.1", 6.6 },
{ "CL:R2R:2//64/t<=3.141", 6.36 },
{ "CL:R2R:2//64/t>3.141", 6.3 },
{ "CL:R2R:2//64/u<=0.1", 6.3 },
{ "CL:R2R:2//64/u<=0.5", 6.33 },
{ "CL:R2R:2//64/u<=1", 8.14 },
{ "CL:R2R:2//64/u<=1.3", 7.94 },
{ "CL:R2R:2//64/u<=1.5", 7.04 },
{ "CL:R2R:2//64/u<=1.64", 8.99 },
{ "CL:R2R:2//64/u<=1.8", 8.25 },
{ "CL:R2R:2//64/u<=1e-06", 6.3 },
{ "CL:R2R:2//64/u<=2.1", 7.58 },
{ "CL:R2R:2//64/u<=2.6", 7.41 },
{ "CL:R2R:2//64/u<=2.95", 6.82 },
{ "CL:R2R:2//64/u<=3.1", 6.52 },
{ "CL:R2R:2//64/v<=0.1", 6.32 },
{ "CL:R2R:2//64/v<=0.5", 6.5 },
{ "CL:R2R:2//64/v<=1", 8.08 },
{ "CL:R2R:2//64/v<=1.3", 7.95 },
{ "CL:R2R:2//64/v<=1.5", 6.91 },
{ "CL:R2R:2//64/v<=1.64", 8.01 },
{ "CL:R2R:2//64/v<=1.8", 7.57 },
{ "CL:R2R:2//64/v<=1e-06", 6.31 },
{ "CL:R2R:2//64/v<=2.1", 6.92 },
{ "CL:R2R:2//64/v<=2.6", 6.77 },
{ "CL:R2R:2//64/v<=2.95", 6.52 },
{ "CL:R2R:2//64/v<=3.1", 6.38 },
{ "CL:R2R:2//64/v<=3.141", 6.31 },
{ "CL:R2R:2//64/v>3.141", 6.29 },
{ "CL:R2R:3//53/t<=0.1", 7.21 },
{ "CL:R2R:3//53/t<=0.5", 6.5 },
{ "CL:R2R:3//53/t<=1", 6.97 },
{ "CL:R2R:3//53/t<=1.3", 9.52 },
{ "CL:R2R:3//53/t<=1.5", 11.6 },
{ "CL:R2R:3//53/t<=1.64", 11.7 },
{ "CL:R2R:3//53/t<=1.8", 7.39 },
{ "CL:R2R:3//53/t<=1e-06", 6.2 },
{ "CL:R2R:3//53/t<=2.1", 7.73 },
{ "CL:R2R:3//53/t<=2.6", 7.95 },
{ "CL:R2R:3//53/t<=2.95", 9.37 },
{ "CL:R2R:3//53/t<=3.1", 11.8 },
{ "CL:R2R:3//53/t<=3.141", 14.3 },
{ "CL:R2R:3//53/t>3.141", 12 },
{ "CL:R2R:3//53/u<=0.1", 7.2 },
{ "CL:R2R:3//53/u<=0.5", 6.45 },
{ "CL:R2R:3//53/u<=1", 6.47 },
{ "CL:R2R:3//53/u<=1.3", 6.99 },
{ "CL:R2R:3//53/u<=1.5", 7.31 },
{ "CL:R2R:3//53/u<=1.64", 7.56 },
{ "CL:R2R:3//53/u<=1.8", 6.51 },
{ "CL:R2R:3//53/u<=1e-06", 7.2 },
{ "CL:R2R:3//53/u<=2.1", 7.29 },
{ "CL:R2R:3//53/u<=2.6", 7.59 },
{ "CL:R2R:3//53/u<=2.95", 9.06 },
{ "CL:R2R:3//53/u<=3.1", 11.3 },
{ "CL:R2R:3//53/v<=0.1", 7.2 },
{ "CL:R2R:3//53/v<=0.5", 6.66 },
{ "CL:R2R:3//53/v<=1", 6.65 },
{ "CL:R2R:3//53/v<=1.3", 6.92 },
{ "CL:R2R:3//53/v<=1.5", 7.04 },
{ "CL:R2R:3//53/v<=1.64", 6.19 },
{ "CL:R2R:3//53/v<=1.8", 6.58 },
{ "CL:R2R:3//53/v<=1e-06", 7.2 },
{ "CL:R2R:3//53/v<=2.1", 6.74 },
{ "CL:R2R:3//53/v<=2.6", 6.83 },
{ "CL:R2R:3//53/v<=2.95", 7.97 },
{ "CL:R2R:3//53/v<=3.1", 9.36 },
{ "CL:R2R:3//53/v<=3.141", 12.5 },
{ "CL:R2R:3//53/v>3.141", 12.8 },
{ "CL:R2R:3//64/t<=0.1", 7.33 },
{ "CL:R2R:3//64/t<=0.5", 7.71 },
{ "CL:R2R:3//64/t<=1", 9.04 },
{ "CL:R2R:3//64/t<=1.3", 10.4 },
{ "CL:R2R:3//64/t<=1.5", 15.8 },
{ "CL:R2R:3//64/t<=1.64", 190 },
{ "CL:R2R:3//64/t<=1.8", 76 },
{ "CL:R2R:3//64/t<=1e-06", 6.29 },
{ "CL:R2R:3//64/t<=2.1", 9.8 },
{ "CL:R2R:3//64/t<=2.6", 8.29 },
{ "CL:R2R:3//64/t<=2.95", 9.55 },
{ "CL:R2R:3//64/t<=3.1", 10.7 },
{ "CL:R2R:3//64/t<=3.141", 17.4 },
{ "CL:R2R:3//64/t>3.141", 13 },
{ "CL:R2R:3//64/u<=0.1", 7.29 },
{ "CL:R2R:3//64/u<=0.5", 6.49 },
{ "CL:R2R:3//64/u<=1", 6.72 },
{ "CL:R2R:3//64/u<=1.3", 7.11 },
{ "CL:R2R:3//64/u<=1.5", 7.86 },
{ "CL:R2R:3//64/u<=1.64", 67.1 },
{ "CL:R2R:3//64/u<=1.8", 34.5 },
{ "CL:R2R:3//64/u<=1e-06", 7.29 },
{ "CL:R2R:3//64/u<=2.1", 7.68 },
{ "CL:R2R:3//64/u<=2.6", 8.06 },
{ "CL:R2R:3//64/u<=2.95", 9.69 },
{ "CL:R2R:3//64/u<=3.1", 12.2 },
{ "CL:R2R:3//64/v<=0.1", 7.29 },
{ "CL:R2R:3//64/v<=0.5", 6.66 },
{ "CL:R2R:3//64/v<=1", 6.78 },
{ "CL:R2R:3//64/v<=1.3", 6.95 },
{ "CL:R2R:3//64/v<=1.5", 7.54 },
{ "CL:R2R:3//64/v<=1.64", 40.4 },
{ "CL:R2R:3//64/v<=1.8", 16.1 },
{ "CL:R2R:3//64/v<=1e-06", 7.29 },
{ "CL:R2R:3//64/v<=2.1", 6.93 },
{ "CL:R2R:3//64/v<=2.6", 7.04 },
{ "CL:R2R:3//64/v<=2.95", 8.03 },
{ "CL:R2R:3//64/v<=3.1", 9.18 },
{ "CL:R2R:3//64/v<=3.141", 13.8 },
{ "CL:R2R:3//64/v>3.141", 11.9 },
{ "CL:R2R:4//53/t<=0.1", 7.07 },
{ "CL:R2R:4//53/t<=0.5", 6.3 },
{ "CL:R2R:4//53/t<=1", 6.94 },
{ "CL:R2R:4//53/t<=1.3", 9.54 },
{ "CL:R2R:4//53/t<=1.5", 14.7 },
{ "CL:R2R:4//53/t<=1.64", 14.6 },
{ "CL:R2R:4//53/t<=1.8", 9.76 },
{ "CL:R2R:4//53/t<=1e-06", 6.07 },
{ "CL:R2R:4//53/t<=2.1", 8.84 },
{ "CL:R2R:4//53/t<=2.6", 7.97 },
{ "CL:R2R:4//53/t<=2.95", 7.09 },
{ "CL:R2R:4//53/t<=3.1", 6.96 },
{ "CL:R2R:4//53/t<=3.141", 6.94 },
{ "CL:R2R:4//53/t>3.141", 6.92 },
{ "CL:R2R:4//53/u<=0.1", 6.35 },
{ "CL:R2R:4//53/u<=0.5", 6.24 },
{ "CL:R2R:4//53/u<=1", 6.9 },
{ "CL:R2R:4//53/u<=1.3", 8.31 },
{ "CL:R2R:4//53/u<=1.5", 13.6 },
{ "CL:R2R:4//53/u<=1.64", 11.3 },
{ "CL:R2R:4//53/u<=1.8", 8.47 },
{ "CL:R2R:4//53/u<=1e-06", 6.35 },
{ "CL:R2R:4//53/u<=2.1", 7.61 },
{ "CL:R2R:4//53/u<=2.6", 7.51 },
{ "CL:R2R:4//53/u<=2.95", 7.29 },
{ "CL:R2R:4//53/u<=3.1", 7.07 },
{ "CL:R2R:4//53/v<=0.1", 6.4 },
{ "CL:R2R:4//53/v<=0.5", 6.41 },
{ "CL:R2R:4//53/v<=1", 6.6 },
{ "CL:R2R:4//53/v<=1.3", 7.56 },
{ "CL:R2R:4//53/v<=1.5", 14.1 },
{ "CL:R2R:4//53/v<=1.64", 8.62 },
{ "CL:R2R:4//53/v<=1.8", 7.58 },
{ "CL:R2R:4//53/v<=1e-06", 6.35 },
{ "CL:R2R:4//53/v<=2.1", 7.08 },
{ "CL:R2R:4//53/v<=2.6", 6.85 },
{ "CL:R2R:4//53/v<=2.95", 6.57 },
{ "CL:R2R:4//53/v<=3.1", 6.43 },
{ "CL:R2R:4//53/v<=3.141", 6.39 },
{ "CL:R2R:4//53/v>3.141", 6.35 },
{ "CL:R2R:4//64/t<=0.1", 7.14 },
{ "CL:R2R:4//64/t<=0.5", 7.35 },
{ "CL:R2R:4//64/t<=1", 8.09 },
{ "CL:R2R:4//64/t<=1.3", 9.26 },
{ "CL:R2R:4//64/t<=1.5", 14.5 },
{ "CL:R2R:4//64/t<=1.64", 80.9 },
{ "CL:R2R:4//64/t<=1.8", 34.9 },
{ "CL:R2R:4//64/t<=1e-06", 6.12 },
{ "CL:R2R:4//64/t<=2.1", 10 },
{ "CL:R2R:4//64/t<=2.6", 8.71 },
{ "CL:R2R:4//64/t<=2.95", 7.4 },
{ "CL:R2R:4//64/t<=3.1", 6.57 },
{ "CL:R2R:4//64/t<=3.141", 6.35 },
{ "CL:R2R:4//64/t>3.141", 6.3 },
{ "CL:R2R:4//64/u<=0.1", 6.3 },
{ "CL:R2R:4//64/u<=0.5", 6.21 },
{ "CL:R2R:4//64/u<=1", 6.73 },
{ "CL:R2R:4//64/u<=1.3", 8.01 },
{ "CL:R2R:4//64/u<=1.5", 15.5 },
{ "CL:R2R:4//64/u<=1.64", 57.8 },
{ "CL:R2R:4//64/u<=1.8", 29 },
{ "CL:R2R:4//64/u<=1e-06", 6.29 },
{ "CL:R2R:4//64/u<=2.1", 8.26 },
{ "CL:R2R:4//64/u<=2.6", 7.4 },
{ "CL:R2R:4//64/u<=2.95", 6.84 },
{ "CL:R2R:4//64/u<=3.1", 6.49 },
{ "CL:R2R:4//64/v<=0.1", 6.3 },
{ "CL:R2R:4//64/v<=0.5", 6.37 },
{ "CL:R2R:4//64/v<=1", 6.57 },
{ "CL:R2R:4//64/v<=1.3", 7.72 },
{ "CL:R2R:4//64/v<=1.5", 11.9 },
{ "CL:R2R:4//64/v<=1.64", 44.6 },
{ "CL:R2R:4//64/v<=1.8", 17.4 },
{ "CL:R2R:4//64/v<=1e-06", 6.29 },
{ "CL:R2R:4//64/v<=2.1", 7.72 },
{ "CL:R2R:4//64/v<=2.6", 7.09 },
{ "CL:R2R:4//64/v<=2.95", 6.59 },
{ "CL:R2R:4//64/v<=3.1", 6.36 },
{ "CL:R2R:4//64/v<=3.141", 6.31 },
{ "CL:R2R:4//64/v>3.141", 6.29 },
{ "CL:R2R:5//53/t<=0.1", 11.8 },
{ "CL:R2R:5//53/t<=0.5", 9.61 },
{ "CL:R2R:5//53/t<=1", 7.59 },
{ "CL:R2R:5//53/t<=1.3", 7.98 },
{ "CL:R2R:5//53/t<=1.5", 7.77 },
{ "CL:R2R:5//53/t<=1.64", 7.87 },
{ "CL:R2R:5//53/t<=1.8", 7.46 },
{ "CL:R2R:5//53/t<=1e-06", 7.9 },
{ "CL:R2R:5//53/t<=2.1", 7.64 },
{ "CL:R2R:5//53/t<=2.6", 7.79 },
{ "CL:R2R:5//53/t<=2.95", 9 },
{ "CL:R2R:5//53/t<=3.1", 10.4 },
{ "CL:R2R:5//53/t<=3.141", 13.2 },
{ "CL:R2R:5//53/t>3.141", 11.1 },
{ "CL:R2R:5//53/u<=0.1", 10.8 },
{ "CL:R2R:5//53/u<=0.5", 8.65 },
{ "CL:R2R:5//53/u<=1", 6.77 },
{ "CL:R2R:5//53/u<=1.3", 6.48 },
{ "CL:R2R:5//53/u<=1.5", 6.52 },
{ "CL:R2R:5//53/u<=1.64", 6.56 },
{ "CL:R2R:5//53/u<=1.8", 6.51 },
{ "CL:R2R:5//53/u<=1e-06", 8.9 },
{ "CL:R2R:5//53/u<=2.1", 7.29 },
{ "CL:R2R:5//53/u<=2.6", 7.74 },
{ "CL:R2R:5//53/u<=2.95", 8.84 },
{ "CL:R2R:5//53/u<=3.1", 10.9 },
{ "CL:R2R:5//53/v<=0.1", 11.4 },
{ "CL:R2R:5//53/v<=0.5", 8.22 },
{ "CL:R2R:5//53/v<=1", 6.63 },
{ "CL:R2R:5//53/v<=1.3", 6.57 },
{ "CL:R2R:5//53/v<=1.5", 6.6 },
{ "CL:R2R:5//53/v<=1.64", 5.65 },
{ "CL:R2R:5//53/v<=1.8", 6.58 },
{ "CL:R2R:5//53/v<=1e-06", 8.9 },
{ "CL:R2R:5//53/v<=2.1", 6.74 },
{ "CL:R2R:5//53/v<=2.6", 6.84 },
{ "CL:R2R:5//53/v<=2.95", 7.66 },
{ "CL:R2R:5//53/v<=3.1", 8.74 },
{ "CL:R2R:5//53/v<=3.141", 12.6 },
{ "CL:R2R:5//53/v>3.141", 12.5 },
{ "CL:R2R:5//64/t<=0.1", 12.8 },
{ "CL:R2R:5//64/t<=0.5", 12.5 },
{ "CL:R2R:5//64/t<=1", 8.88 },
{ "CL:R2R:5//64/t<=1.3", 8.04 },
{ "CL:R2R:5//64/t<=1.5", 8.12 },
{ "CL:R2R:5//64/t<=1.64", 306 },
{ "CL:R2R:5//64/t<=1.8", 73.3 },
{ "CL:R2R:5//64/t<=1e-06", 7.5 },
{ "CL:R2R:5//64/t<=2.1", 9.49 },
{ "CL:R2R:5//64/t<=2.6", 8.04 },
{ "CL:R2R:5//64/t<=2.95", 9.32 },
{ "CL:R2R:5//64/t<=3.1", 10.5 },
{ "CL:R2R:5//64/t<=3.141", 15.3 },
{ "CL:R2R:5//64/t>3.141", 12.1 },
{ "CL:R2R:5//64/u<=0.1", 11.7 },
{ "CL:R2R:5//64/u<=0.5", 8.7 },
{ "CL:R2R:5//64/u<=1", 6.76 },
{ "CL:R2R:5//64/u<=1.3", 6.52 },
{ "CL:R2R:5//64/u<=1.5", 6.59 },
{ "CL:R2R:5//64/u<=1.64", 92.9 },
{ "CL:R2R:5//64/u<=1.8", 33.5 },
{ "CL:R2R:5//64/u<=1e-06", 8.42 },
{ "CL:R2R:5//64/u<=2.1", 7.37 },
{ "CL:R2R:5//64/u<=2.6", 7.86 },
{ "CL:R2R:5//64/u<=2.95", 9 },
{ "CL:R2R:5//64/u<=3.1", 11.7 },
{ "CL:R2R:5//64/v<=0.1", 9.91 },
{ "CL:R2R:5//64/v<=0.5", 8.46 },
{ "CL:R2R:5//64/v<=1", 6.78 },
{ "CL:R2R:5//64/v<=1.3", 6.52 },
{ "CL:R2R:5//64/v<=1.5", 6.5 },
{ "CL:R2R:5//64/v<=1.64", 57.8 },
{ "CL:R2R:5//64/v<=1.8", 15.7 },
{ "CL:R2R:5//64/v<=1e-06", 8.47 },
{ "CL:R2R:5//64/v<=2.1", 6.79 },
{ "CL:R2R:5//64/v<=2.6", 6.87 },
{ "CL:R2R:5//64/v<=2.95", 7.74 },
{ "CL:R2R:5//64/v<=3.1", 9.27 },
{ "CL:R2R:5//64/v<=3.141", 12.6 },
{ "CL:R2R:5//64/v>3.141", 13.6 },
{ "CL:R2R:6//53/t<=0.1", 8.53 },
{ "CL:R2R:6//53/t<=0.5", 8.18 },
{ "CL:R2R:6//53/t<=1", 7.77 },
{ "CL:R2R:6//53/t<=1.3", 9.02 },
{ "CL:R2R:6//53/t<=1.5", 10.8 },
{ "CL:R2R:6//53/t<=1.64", 11.8 },
{ "CL:R2R:6//53/t<=1.8", 9.42 },
{ "CL:R2R:6//53/t<=1e-06", 6.73 },
{ "CL:R2R:6//53/t<=2.1", 8.5 },
{ "CL:R2R:6//53/t<=2.6", 8.06 },
{ "CL:R2R:6//53/t<=2.95", 7.13 },
{ "CL:R2R:6//53/t<=3.1", 6.96 },
{ "CL:R2R:6//53/t<=3.141", 6.96 },
{ "CL:R2R:6//53/t>3.141", 6.92 },
{ "CL:R2R:6//53/u<=0.1", 6.36 },
{ "CL:R2R:6//53/u<=0.5", 6.4 },
{ "CL:R2R:6//53/u<=1", 6.93 },
{ "CL:R2R:6//53/u<=1.3", 7.67 },
{ "CL:R2R:6//53/u<=1.5", 9.37 },
{ "CL:R2R:6//53/u<=1.64", 11 },
{ "CL:R2R:6//53/u<=1.8", 8.65 },
{ "CL:R2R:6//53/u<=1e-06", 6.35 },
{ "CL:R2R:6//53/u<=2.1", 7.8 },
{ "CL:R2R:6//53/u<=2.6", 7.66 },
{ "CL:R2R:6//53/u<=2.95", 7.33 },
{ "CL:R2R:6//53/u<=3.1", 7.08 },
{ "CL:R2R:6//53/v<=0.1", 6.39 },
{ "CL:R2R:6//53/v<=0.5", 6.49 },
{ "CL:R2R:6//53/v<=1", 6.66 },
{ "CL:R2R:6//53/v<=1.3", 7.39 },
{ "CL:R2R:6//53/v<=1.5", 8.93 },
{ "CL:R2R:6//53/v<=1.64", 9.01 },
{ "CL:R2R:6//53/v<=1.8", 8.01 },
{ "CL:R2R:6//53/v<=1e-06", 6.35 },
{ "CL:R2R:6//53/v<=2.1", 7.04 },
{ "CL:R2R:6//53/v<=2.6", 6.94 },
{ "CL:R2R:6//53/v<=2.95", 6.59 },
{ "CL:R2R:6//53/v<=3.1", 6.43 },
{ "CL:R2R:6//53/v<=3.141", 6.37 },
{ "CL:R2R:6//53/v>3.141", 6.35 },
{ "CL:R2R:6//64/t<=0.1", 8.69 },
{ "CL:R2R:6//64/t<=0.5", 8.89 },
{ "CL:R2R:6//64/t<=1", 8.6 },
{ "CL:R2R:6//64/t<=1.3", 9.61 },
{ "CL:R2R:6//64/t<=1.5", 13.6 },
{ "CL:R2R:6//64/t<=1.64", 856 },
{ "CL:R2R:6//64/t<=1.8", 308 },
{ "CL:R2R:6//64/t<=1e-06", 6.62 },
{ "CL:R2R:6//64/t<=2.1", 23 },
{ "CL:R2R:6//64/t<=2.6", 8.87 },
{ "CL:R2R:6//64/t<=2.95", 7.45 },
{ "CL:R2R:6//64/t<=3.1", 6.59 },
{ "CL:R2R:6//64/t<=3.141", 6.36 },
{ "CL:R2R:6//64/t>3.141", 6.3 },
{ "CL:R2R:6//64/u<=0.1", 6.3 },
{ "CL:R2R:6//64/u<=0.5", 6.34 },
{ "CL:R2R:6//64/u<=1", 6.89 },
{ "CL:R2R:6//64/u<=1.3", 8.15 },
{ "CL:R2R:6//64/u<=1.5", 11.6 },
{ "CL:R2R:6//64/u<=1.64", 839 },
{ "CL:R2R:6//64/u<=1.8", 221 },
{ "CL:R2R:6//64/u<=1e-06", 6.29 },
{ "CL:R2R:6//64/u<=2.1", 17.6 },
{ "CL:R2R:6//64/u<=2.6", 7.61 },
{ "CL:R2R:6//64/u<=2.95", 6.94 },
{ "CL:R2R:6//64/u<=3.1", 6.48 },
{ "CL:R2R:6//64/v<=0.1", 6.35 },
{ "CL:R2R:6//64/v<=0.5", 6.5 },
{ "CL:R2R:6//64/v<=1", 6.76 },
{ "CL:R2R:6//64/v<=1.3", 7.69 },
{ "CL:R2R:6//64/v<=1.5", 9.42 },
{ "CL:R2R:6//64/v<=1.64", 739 },
{ "CL:R2R:6//64/v<=1.8", 129 },
{ "CL:R2R:6//64/v<=1e-06", 6.29 },
{ "CL:R2R:6//64/v<=2.1", 9.78 },
{ "CL:R2R:6//64/v<=2.6", 7.21 },
{ "CL:R2R:6//64/v<=2.95", 6.58 },
{ "CL:R2R:6//64/v<=3.1", 6.38 },
{ "CL:R2R:6//64/v<=3.141", 6.31 },
{ "CL:R2R:6//64/v>3.141", 6.29 },
{ "CLBND|CL:NR2R:0/1/53/t<=0.1", 6.96 },
{ "CLBND|CL:NR2R:0/1/53/t<=0.5", 6.96 },
{ "CLBND|CL:NR2R:0/1/53/t<=1", 6.9 },
{ "CLBND|CL:NR2R:0/1/53/t<=1.3", 7.1 },
{ "CLBND|CL:NR2R:0/1/53/t<=1.5", 6.93 },
{ "CLBND|CL:NR2R:0/1/53/t<=1.64", 6.86 },
{ "CLBND|CL:NR2R:0/1/53/t<=1.8", 6.81 },
{ "CLBND|CL:NR2R:0/1/53/t<=1e-06", 7 },
{ "CLBND|CL:NR2R:0/1/53/t<=2.1", 6.94 },
{ "CLBND|CL:NR2R:0/1/53/t<=2.6", 6.99 },
{ "CLBND|CL:NR2R:0/1/53/t<=2.95", 7.18 },
{ "CLBND|CL:NR2R:0/1/53/t<=3.1", 7.35 },
{ "CLBND|CL:NR2R:0/1/53/t<=3.141", 7.42 },
{ "CLBND|CL:NR2R:0/1/53/t>3.141", 7.4 },
{ "CLBND|CL:NR2R:0/1/53/u<=0.1", 6.36 },
{ "CLBND|CL:NR2R:0/1/53/u<=0.5", 6.13 },
{ "CLBND|CL:NR2R:0/1/53/u<=1", 6.17 },
{ "CLBND|CL:NR2R:0/1/53/u<=1.3", 6.31 },
{ "CLBND|CL:NR2R:0/1/53/u<=1.5", 6.38 },
{ "CLBND|CL:NR2R:0/1/53/u<=1.64", 6.4 },
{ "CLBND|CL:NR2R:0/1/53/u<=1.8", 6.42 },
{ "CLBND|CL:NR2R:0/1/53/u<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/1/53/u<=2.1", 6.9 },
{ "CLBND|CL:NR2R:0/1/53/u<=2.6", 7.08 },
{ "CLBND|CL:NR2R:0/1/53/u<=2.95", 7.23 },
{ "CLBND|CL:NR2R:0/1/53/u<=3.1", 7.35 },
{ "CLBND|CL:NR2R:0/1/53/v<=0.1", 6.37 },
{ "CLBND|CL:NR2R:0/1/53/v<=0.5", 6.4 },
{ "CLBND|CL:NR2R:0/1/53/v<=1", 6.42 },
{ "CLBND|CL:NR2R:0/1/53/v<=1.3", 6.46 },
{ "CLBND|CL:NR2R:0/1/53/v<=1.5", 6.48 },
{ "CLBND|CL:NR2R:0/1/53/v<=1.64", 6.48 },
{ "CLBND|CL:NR2R:0/1/53/v<=1.8", 6.48 },
{ "CLBND|CL:NR2R:0/1/53/v<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/1/53/v<=2.1", 6.57 },
{ "CLBND|CL:NR2R:0/1/53/v<=2.6", 6.67 },
{ "CLBND|CL:NR2R:0/1/53/v<=2.95", 6.9 },
{ "CLBND|CL:NR2R:0/1/53/v<=3.1", 7.2 },
{ "CLBND|CL:NR2R:0/1/53/v<=3.141", 7.42 },
{ "CLBND|CL:NR2R:0/1/53/v>3.141", 7.41 },
{ "CLBND|CL:NR2R:0/2/53/t<=0.1", 7.71 },
{ "CLBND|CL:NR2R:0/2/53/t<=0.5", 8 },
{ "CLBND|CL:NR2R:0/2/53/t<=1", 8.67 },
{ "CLBND|CL:NR2R:0/2/53/t<=1.3", 12.6 },
{ "CLBND|CL:NR2R:0/2/53/t<=1.5", 7.73 },
{ "CLBND|CL:NR2R:0/2/53/t<=1.64", 8.86 },
{ "CLBND|CL:NR2R:0/2/53/t<=1.8", 8.68 },
{ "CLBND|CL:NR2R:0/2/53/t<=1e-06", 7.47 },
{ "CLBND|CL:NR2R:0/2/53/t<=2.1", 8.46 },
{ "CLBND|CL:NR2R:0/2/53/t<=2.6", 8.09 },
{ "CLBND|CL:NR2R:0/2/53/t<=2.95", 7.07 },
{ "CLBND|CL:NR2R:0/2/53/t<=3.1", 6.96 },
{ "CLBND|CL:NR2R:0/2/53/t<=3.141", 6.95 },
{ "CLBND|CL:NR2R:0/2/53/t>3.141", 6.92 },
{ "CLBND|CL:NR2R:0/2/53/u<=0.1", 6.35 },
{ "CLBND|CL:NR2R:0/2/53/u<=0.5", 6.35 },
{ "CLBND|CL:NR2R:0/2/53/u<=1", 8.21 },
{ "CLBND|CL:NR2R:0/2/53/u<=1.3", 12.6 },
{ "CLBND|CL:NR2R:0/2/53/u<=1.5", 7.06 },
{ "CLBND|CL:NR2R:0/2/53/u<=1.64", 7.67 },
{ "CLBND|CL:NR2R:0/2/53/u<=1.8", 7.56 },
{ "CLBND|CL:NR2R:0/2/53/u<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/2/53/u<=2.1", 7.74 },
{ "CLBND|CL:NR2R:0/2/53/u<=2.6", 7.64 },
{ "CLBND|CL:NR2R:0/2/53/u<=2.95", 7.25 },
{ "CLBND|CL:NR2R:0/2/53/u<=3.1", 7.03 },
{ "CLBND|CL:NR2R:0/2/53/v<=0.1", 6.69 },
{ "CLBND|CL:NR2R:0/2/53/v<=0.5", 6.65 },
{ "CLBND|CL:NR2R:0/2/53/v<=1", 7.95 },
{ "CLBND|CL:NR2R:0/2/53/v<=1.3", 12.6 },
{ "CLBND|CL:NR2R:0/2/53/v<=1.5", 6.95 },
{ "CLBND|CL:NR2R:0/2/53/v<=1.64", 7.27 },
{ "CLBND|CL:NR2R:0/2/53/v<=1.8", 7.09 },
{ "CLBND|CL:NR2R:0/2/53/v<=1e-06", 6.37 },
{ "CLBND|CL:NR2R:0/2/53/v<=2.1", 7.06 },
{ "CLBND|CL:NR2R:0/2/53/v<=2.6", 6.88 },
{ "CLBND|CL:NR2R:0/2/53/v<=2.95", 6.57 },
{ "CLBND|CL:NR2R:0/2/53/v<=3.1", 6.42 },
{ "CLBND|CL:NR2R:0/2/53/v<=3.141", 6.37 },
{ "CLBND|CL:NR2R:0/2/53/v>3.141", 6.35 },
{ "CLBND|CL:NR2R:0/200+/53/t<=0.1", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/t<=0.5", 6 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1", 6.53 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1.3", 6.38 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1.5", 6.45 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1.64", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1.8", 6.45 },
{ "CLBND|CL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "CLBND|CL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "CLBND|CL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "CLBND|CL:NR2R:0/200+/53/t<=2.95", 6.32 },
{ "CLBND|CL:NR2R:0/200+/53/t<=3.1", 6.57 },
{ "CLBND|CL:NR2R:0/200+/53/t<=3.141", 6.57 },
{ "CLBND|CL:NR2R:0/200+/53/t>3.141", 6.92 },
{ "CLBND|CL:NR2R:0/200+/53/u<=0.1", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/u<=0.5", 6.31 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1", 6.16 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1.3", 6.24 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1.5", 6.38 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1.8", 6.39 },
{ "CLBND|CL:NR2R:0/200+/53/u<=1e-06", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/u<=2.1", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "CLBND|CL:NR2R:0/200+/53/u<=2.95", 6.56 },
{ "CLBND|CL:NR2R:0/200+/53/u<=3.1", 6.57 },
{ "CLBND|CL:NR2R:0/200+/53/v<=0.1", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1", 6.38 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1.3", 6.37 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1.5", 6.42 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1.8", 6.41 },
{ "CLBND|CL:NR2R:0/200+/53/v<=1e-06", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/v<=2.1", 6.36 },
{ "CLBND|CL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "CLBND|CL:NR2R:0/200+/53/v<=2.95", 6.37 },
{ "CLBND|CL:NR2R:0/200+/53/v<=3.1", 6.42 },
{ "CLBND|CL:NR2R:0/200+/53/v<=3.141", 6.5 },
{ "CLBND|CL:NR2R:0/200+/53/v>3.141", 6.5 },
{ "CLBND|CL:NR2R:0/3/53/t<=0.1", 7.21 },
{ "CLBND|CL:NR2R:0/3/53/t<=0.5", 7.5 },
{ "CLBND|CL:NR2R:0/3/53/t<=1", 8.21 },
{ "CLBND|CL:NR2R:0/3/53/t<=1.3", 10.6 },
{ "CLBND|CL:NR2R:0/3/53/t<=1.5", 13.9 },
{ "CLBND|CL:NR2R:0/3/53/t<=1.64", 14.5 },
{ "CLBND|CL:NR2R:0/3/53/t<=1.8", 7.39 },
{ "CLBND|CL:NR2R:0/3/53/t<=1e-06", 7.2 },
{ "CLBND|CL:NR2R:0/3/53/t<=2.1", 7.73 },
{ "CLBND|CL:NR2R:0/3/53/t<=2.6", 7.95 },
{ "CLBND|CL:NR2R:0/3/53/t<=2.95", 10.1 },
{ "CLBND|CL:NR2R:0/3/53/t<=3.1", 14.2 },
{ "CLBND|CL:NR2R:0/3/53/t<=3.141", 14.3 },
{ "CLBND|CL:NR2R:0/3/53/t>3.141", 14.4 },
{ "CLBND|CL:NR2R:0/3/53/u<=0.1", 7.2 },
{ "CLBND|CL:NR2R:0/3/53/u<=0.5", 6.45 },
{ "CLBND|CL:NR2R:0/3/53/u<=1", 6.47 },
{ "CLBND|CL:NR2R:0/3/53/u<=1.3", 6.99 },
{ "CLBND|CL:NR2R:0/3/53/u<=1.5", 7.31 },
{ "CLBND|CL:NR2R:0/3/53/u<=1.64", 7.56 },
{ "CLBND|CL:NR2R:0/3/53/u<=1.8", 6.51 },
{ "CLBND|CL:NR2R:0/3/53/u<=1e-06", 7.2 },
{ "CLBND|CL:NR2R:0/3/53/u<=2.1", 7.29 },
{ "CLBND|CL:NR2R:0/3/53/u<=2.6", 7.59 },
{ "CLBND|CL:NR2R:0/3/53/u<=2.95", 9.19 },
{ "CLBND|CL:NR2R:0/3/53/u<=3.1", 11.3 },
{ "CLBND|CL:NR2R:0/3/53/v<=0.1", 7.2 },
{ "CLBND|CL:NR2R:0/3/53/v<=0.5", 6.66 },
{ "CLBND|CL:NR2R:0/3/53/v<=1", 6.65 },
{ "CLBND|CL:NR2R:0/3/53/v<=1.3", 6.92 },
{ "CLBND|CL:NR2R:0/3/53/v<=1.5", 7.04 },
{ "CLBND|CL:NR2R:0/3/53/v<=1.64", 7.19 },
{ "CLBND|CL:NR2R:0/3/53/v<=1.8", 6.58 },
{ "CLBND|CL:NR2R:0/3/53/v<=1e-06", 7.2 },
{ "CLBND|CL:NR2R:0/3/53/v<=2.1", 6.74 },
{ "CLBND|CL:NR2R:0/3/53/v<=2.6", 6.83 },
{ "CLBND|CL:NR2R:0/3/53/v<=2.95", 7.97 },
{ "CLBND|CL:NR2R:0/3/53/v<=3.1", 10.1 },
{ "CLBND|CL:NR2R:0/3/53/v<=3.141", 15 },
{ "CLBND|CL:NR2R:0/3/53/v>3.141", 15.4 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=0.1", 8.07 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=0.5", 7.44 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1", 7.42 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1.3", 7.06 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1.64", 7.37 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1.8", 7.25 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=1e-06", 7.08 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=2.1", 7 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=2.6", 6.72 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=2.95", 6.75 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=3.1", 7.22 },
{ "CLBND|CL:NR2R:0/30-199/53/t<=3.141", 7.31 },
{ "CLBND|CL:NR2R:0/30-199/53/t>3.141", 7.19 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=0.1", 8.05 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=0.5", 6.79 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1", 6.39 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1.3", 6.59 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1.5", 6.96 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1.64", 7.44 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1.8", 6.99 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=1e-06", 8.08 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=2.1", 6.77 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=2.6", 6.79 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=2.95", 6.96 },
{ "CLBND|CL:NR2R:0/30-199/53/u<=3.1", 7.16 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=0.1", 8.06 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=0.5", 6.82 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1", 6.53 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1.3", 6.59 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1.5", 6.89 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1.64", 7.39 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1.8", 6.92 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=1e-06", 8.08 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=2.1", 6.66 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=2.6", 6.46 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=2.95", 6.47 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=3.1", 6.81 },
{ "CLBND|CL:NR2R:0/30-199/53/v<=3.141", 7.27 },
{ "CLBND|CL:NR2R:0/30-199/53/v>3.141", 7.18 },
{ "CLBND|CL:NR2R:0/4/53/t<=0.1", 7.07 },
{ "CLBND|CL:NR2R:0/4/53/t<=0.5", 7.3 },
{ "CLBND|CL:NR2R:0/4/53/t<=1", 7.94 },
{ "CLBND|CL:NR2R:0/4/53/t<=1.3", 10.6 },
{ "CLBND|CL:NR2R:0/4/53/t<=1.5", 17.6 },
{ "CLBND|CL:NR2R:0/4/53/t<=1.64", 17.6 },
{ "CLBND|CL:NR2R:0/4/53/t<=1.8", 11.3 },
{ "CLBND|CL:NR2R:0/4/53/t<=1e-06", 7.07 },
{ "CLBND|CL:NR2R:0/4/53/t<=2.1", 8.84 },
{ "CLBND|CL:NR2R:0/4/53/t<=2.6", 7.97 },
{ "CLBND|CL:NR2R:0/4/53/t<=2.95", 7.09 },
{ "CLBND|CL:NR2R:0/4/53/t<=3.1", 6.97 },
{ "CLBND|CL:NR2R:0/4/53/t<=3.141", 6.94 },
{ "CLBND|CL:NR2R:0/4/53/t>3.141", 6.92 },
{ "CLBND|CL:NR2R:0/4/53/u<=0.1", 6.35 },
{ "CLBND|CL:NR2R:0/4/53/u<=0.5", 6.24 },
{ "CLBND|CL:NR2R:0/4/53/u<=1", 6.9 },
{ "CLBND|CL:NR2R:0/4/53/u<=1.3", 8.31 },
{ "CLBND|CL:NR2R:0/4/53/u<=1.5", 16.3 },
{ "CLBND|CL:NR2R:0/4/53/u<=1.64", 13.5 },
{ "CLBND|CL:NR2R:0/4/53/u<=1.8", 8.47 },
{ "CLBND|CL:NR2R:0/4/53/u<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/4/53/u<=2.1", 7.61 },
{ "CLBND|CL:NR2R:0/4/53/u<=2.6", 7.61 },
{ "CLBND|CL:NR2R:0/4/53/u<=2.95", 7.29 },
{ "CLBND|CL:NR2R:0/4/53/u<=3.1", 7.07 },
{ "CLBND|CL:NR2R:0/4/53/v<=0.1", 6.41 },
{ "CLBND|CL:NR2R:0/4/53/v<=0.5", 6.41 },
{ "CLBND|CL:NR2R:0/4/53/v<=1", 6.6 },
{ "CLBND|CL:NR2R:0/4/53/v<=1.3", 7.56 },
{ "CLBND|CL:NR2R:0/4/53/v<=1.5", 16.9 },
{ "CLBND|CL:NR2R:0/4/53/v<=1.64", 12.3 },
{ "CLBND|CL:NR2R:0/4/53/v<=1.8", 7.58 },
{ "CLBND|CL:NR2R:0/4/53/v<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/4/53/v<=2.1", 7.08 },
{ "CLBND|CL:NR2R:0/4/53/v<=2.6", 6.85 },
{ "CLBND|CL:NR2R:0/4/53/v<=2.95", 6.57 },
{ "CLBND|CL:NR2R:0/4/53/v<=3.1", 6.43 },
{ "CLBND|CL:NR2R:0/4/53/v<=3.141", 6.39 },
{ "CLBND|CL:NR2R:0/4/53/v>3.141", 6.35 },
{ "CLBND|CL:NR2R:0/5/53/t<=0.1", 14.2 },
{ "CLBND|CL:NR2R:0/5/53/t<=0.5", 13.9 },
{ "CLBND|CL:NR2R:0/5/53/t<=1", 8.59 },
{ "CLBND|CL:NR2R:0/5/53/t<=1.3", 7.98 },
{ "CLBND|CL:NR2R:0/5/53/t<=1.5", 7.77 },
{ "CLBND|CL:NR2R:0/5/53/t<=1.64", 7.87 },
{ "CLBND|CL:NR2R:0/5/53/t<=1.8", 7.46 },
{ "CLBND|CL:NR2R:0/5/53/t<=1e-06", 12.5 },
{ "CLBND|CL:NR2R:0/5/53/t<=2.1", 7.64 },
{ "CLBND|CL:NR2R:0/5/53/t<=2.6", 7.79 },
{ "CLBND|CL:NR2R:0/5/53/t<=2.95", 9 },
{ "CLBND|CL:NR2R:0/5/53/t<=3.1", 12.5 },
{ "CLBND|CL:NR2R:0/5/53/t<=3.141", 13.2 },
{ "CLBND|CL:NR2R:0/5/53/t>3.141", 13.3 },
{ "CLBND|CL:NR2R:0/5/53/u<=0.1", 13 },
{ "CLBND|CL:NR2R:0/5/53/u<=0.5", 8.65 },
{ "CLBND|CL:NR2R:0/5/53/u<=1", 6.77 },
{ "CLBND|CL:NR2R:0/5/53/u<=1.3", 6.48 },
{ "CLBND|CL:NR2R:0/5/53/u<=1.5", 6.52 },
{ "CLBND|CL:NR2R:0/5/53/u<=1.64", 6.59 },
{ "CLBND|CL:NR2R:0/5/53/u<=1.8", 6.51 },
{ "CLBND|CL:NR2R:0/5/53/u<=1e-06", 12.5 },
{ "CLBND|CL:NR2R:0/5/53/u<=2.1", 7.29 },
{ "CLBND|CL:NR2R:0/5/53/u<=2.6", 7.74 },
{ "CLBND|CL:NR2R:0/5/53/u<=2.95", 8.84 },
{ "CLBND|CL:NR2R:0/5/53/u<=3.1", 10.9 },
{ "CLBND|CL:NR2R:0/5/53/v<=0.1", 13.7 },
{ "CLBND|CL:NR2R:0/5/53/v<=0.5", 8.22 },
{ "CLBND|CL:NR2R:0/5/53/v<=1", 6.64 },
{ "CLBND|CL:NR2R:0/5/53/v<=1.3", 6.57 },
{ "CLBND|CL:NR2R:0/5/53/v<=1.5", 6.6 },
{ "CLBND|CL:NR2R:0/5/53/v<=1.64", 6.65 },
{ "CLBND|CL:NR2R:0/5/53/v<=1.8", 6.58 },
{ "CLBND|CL:NR2R:0/5/53/v<=1e-06", 12.5 },
{ "CLBND|CL:NR2R:0/5/53/v<=2.1", 6.74 },
{ "CLBND|CL:NR2R:0/5/53/v<=2.6", 6.84 },
{ "CLBND|CL:NR2R:0/5/53/v<=2.95", 7.66 },
{ "CLBND|CL:NR2R:0/5/53/v<=3.1", 8.74 },
{ "CLBND|CL:NR2R:0/5/53/v<=3.141", 15.1 },
{ "CLBND|CL:NR2R:0/5/53/v>3.141", 15 },
{ "CLBND|CL:NR2R:0/6/53/t<=0.1", 8.53 },
{ "CLBND|CL:NR2R:0/6/53/t<=0.5", 9.54 },
{ "CLBND|CL:NR2R:0/6/53/t<=1", 8.77 },
{ "CLBND|CL:NR2R:0/6/53/t<=1.3", 9.07 },
{ "CLBND|CL:NR2R:0/6/53/t<=1.5", 12.9 },
{ "CLBND|CL:NR2R:0/6/53/t<=1.64", 14.2 },
{ "CLBND|CL:NR2R:0/6/53/t<=1.8", 10.4 },
{ "CLBND|CL:NR2R:0/6/53/t<=1e-06", 7.74 },
{ "CLBND|CL:NR2R:0/6/53/t<=2.1", 8.5 },
{ "CLBND|CL:NR2R:0/6/53/t<=2.6", 8.06 },
{ "CLBND|CL:NR2R:0/6/53/t<=2.95", 7.13 },
{ "CLBND|CL:NR2R:0/6/53/t<=3.1", 6.96 },
{ "CLBND|CL:NR2R:0/6/53/t<=3.141", 6.96 },
{ "CLBND|CL:NR2R:0/6/53/t>3.141", 6.92 },
{ "CLBND|CL:NR2R:0/6/53/u<=0.1", 6.36 },
{ "CLBND|CL:NR2R:0/6/53/u<=0.5", 6.4 },
{ "CLBND|CL:NR2R:0/6/53/u<=1", 6.93 },
{ "CLBND|CL:NR2R:0/6/53/u<=1.3", 7.67 },
{ "CLBND|CL:NR2R:0/6/53/u<=1.5", 10.1 },
{ "CLBND|CL:NR2R:0/6/53/u<=1.64", 13.2 },
{ "CLBND|CL:NR2R:0/6/53/u<=1.8", 8.65 },
{ "CLBND|CL:NR2R:0/6/53/u<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/6/53/u<=2.1", 7.8 },
{ "CLBND|CL:NR2R:0/6/53/u<=2.6", 7.66 },
{ "CLBND|CL:NR2R:0/6/53/u<=2.95", 7.33 },
{ "CLBND|CL:NR2R:0/6/53/u<=3.1", 7.08 },
{ "CLBND|CL:NR2R:0/6/53/v<=0.1", 6.39 },
{ "CLBND|CL:NR2R:0/6/53/v<=0.5", 6.49 },
{ "CLBND|CL:NR2R:0/6/53/v<=1", 6.66 },
{ "CLBND|CL:NR2R:0/6/53/v<=1.3", 7.39 },
{ "CLBND|CL:NR2R:0/6/53/v<=1.5", 8.93 },
{ "CLBND|CL:NR2R:0/6/53/v<=1.64", 12 },
{ "CLBND|CL:NR2R:0/6/53/v<=1.8", 8.01 },
{ "CLBND|CL:NR2R:0/6/53/v<=1e-06", 6.35 },
{ "CLBND|CL:NR2R:0/6/53/v<=2.1", 7.04 },
{ "CLBND|CL:NR2R:0/6/53/v<=2.6", 6.94 },
{ "CLBND|CL:NR2R:0/6/53/v<=2.95", 6.59 },
{ "CLBND|CL:NR2R:0/6/53/v<=3.1", 6.43 },
{ "CLBND|CL:NR2R:0/6/53/v<=3.141", 6.37 },
{ "CLBND|CL:NR2R:0/6/53/v>3.141", 6.35 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=0.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=0.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1.3", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1.64", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1.8", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=1e-06", 6.73 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=2.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=2.6", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=2.95", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=3.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t<=3.141", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/t>3.141", 210 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=0.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=0.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1.3", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1.64", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1.8", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=1e-06", 6.73 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=2.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=2.6", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=2.95", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/u<=3.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=0.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=0.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1.3", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1.5", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1.64", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1.8", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=1e-06", 6.73 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=2.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=2.6", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=2.95", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=3.1", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v<=3.141", 6 },
{ "CLBND|CL:NR2R:0/7-29/53/v>3.141", 222 },
{ "CLBND|CL:R2R:1//53/t<=0.1", 6.96 },
{ "CLBND|CL:R2R:1//53/t<=0.5", 6.96 },
{ "CLBND|CL:R2R:1//53/t<=1", 6.9 },
{ "CLBND|CL:R2R:1//53/t<=1.3", 7.1 },
{ "CLBND|CL:R2R:1//53/t<=1.5", 6.93 },
{ "CLBND|CL:R2R:1//53/t<=1.64", 6.86 },
{ "CLBND|CL:R2R:1//53/t<=1.8", 6.81 },
{ "CLBND|CL:R2R:1//53/t<=1e-06", 7 },
{ "CLBND|CL:R2R:1//53/t<=2.1", 6.94 },
{ "CLBND|CL:R2R:1//53/t<=2.6", 6.99 },
{ "CLBND|CL:R2R:1//53/t<=2.95", 7.18 },
{ "CLBND|CL:R2R:1//53/t<=3.1", 7.35 },
{ "CLBND|CL:R2R:1//53/t<=3.141", 7.42 },
{ "CLBND|CL:R2R:1//53/t>3.141", 7.4 },
{ "CLBND|CL:R2R:1//53/u<=0.1", 6.36 },
{ "CLBND|CL:R2R:1//53/u<=0.5", 6.13 },
{ "CLBND|CL:R2R:1//53/u<=1", 6.17 },
{ "CLBND|CL:R2R:1//53/u<=1.3", 6.31 },
{ "CLBND|CL:R2R:1//53/u<=1.5", 6.38 },
{ "CLBND|CL:R2R:1//53/u<=1.64", 6.4 },
{ "CLBND|CL:R2R:1//53/u<=1.8", 6.42 },
{ "CLBND|CL:R2R:1//53/u<=1e-06", 6.35 },
{ "CLBND|CL:R2R:1//53/u<=2.1", 6.9 },
{ "CLBND|CL:R2R:1//53/u<=2.6", 7.08 },
{ "CLBND|CL:R2R:1//53/u<=2.95", 7.23 },
{ "CLBND|CL:R2R:1//53/u<=3.1", 7.35 },
{ "CLBND|CL:R2R:1//53/v<=0.1", 6.37 },
{ "CLBND|CL:R2R:1//53/v<=0.5", 6.4 },
{ "CLBND|CL:R2R:1//53/v<=1", 6.42 },
{ "CLBND|CL:R2R:1//53/v<=1.3", 6.46 },
{ "CLBND|CL:R2R:1//53/v<=1.5", 6.48 },
{ "CLBND|CL:R2R:1//53/v<=1.64", 6.48 },
{ "CLBND|CL:R2R:1//53/v<=1.8", 6.48 },
{ "CLBND|CL:R2R:1//53/v<=1e-06", 6.35 },
{ "CLBND|CL:R2R:1//53/v<=2.1", 6.57 },
{ "CLBND|CL:R2R:1//53/v<=2.6", 6.67 },
{ "CLBND|CL:R2R:1//53/v<=2.95", 6.9 },
{ "CLBND|CL:R2R:1//53/v<=3.1", 7.2 },
{ "CLBND|CL:R2R:1//53/v<=3.141", 7.42 },
{ "CLBND|CL:R2R:1//53/v>3.141", 7.41 },
{ "CLBND|CL:R2R:2//53/t<=0.1", 7.71 },
{ "CLBND|CL:R2R:2//53/t<=0.5", 7 },
{ "CLBND|CL:R2R:2//53/t<=1", 7.6 },
{ "CLBND|CL:R2R:2//53/t<=1.3", 8.2 },
{ "CLBND|CL:R2R:2//53/t<=1.5", 7.73 },
{ "CLBND|CL:R2R:2//53/t<=1.64", 8.86 },
{ "CLBND|CL:R2R:2//53/t<=1.8", 8.62 },
{ "CLBND|CL:R2R:2//53/t<=1e-06", 6.47 },
{ "CLBND|CL:R2R:2//53/t<=2.1", 8.46 },
{ "CLBND|CL:R2R:2//53/t<=2.6", 8.04 },
{ "CLBND|CL:R2R:2//53/t<=2.95", 7.07 },
{ "CLBND|CL:R2R:2//53/t<=3.1", 6.96 },
{ "CLBND|CL:R2R:2//53/t<=3.141", 6.95 },
{ "CLBND|CL:R2R:2//53/t>3.141", 6.92 },
{ "CLBND|CL:R2R:2//53/u<=0.1", 6.35 },
{ "CLBND|CL:R2R:2//53/u<=0.5", 6.35 },
{ "CLBND|CL:R2R:2//53/u<=1", 8.21 },
{ "CLBND|CL:R2R:2//53/u<=1.3", 7.96 },
{ "CLBND|CL:R2R:2//53/u<=1.5", 7.04 },
{ "CLBND|CL:R2R:2//53/u<=1.64", 7.67 },
{ "CLBND|CL:R2R:2//53/u<=1.8", 7.43 },
{ "CLBND|CL:R2R:2//53/u<=1e-06", 6.35 },
{ "CLBND|CL:R2R:2//53/u<=2.1", 7.74 },
{ "CLBND|CL:R2R:2//53/u<=2.6", 7.64 },
{ "CLBND|CL:R2R:2//53/u<=2.95", 7.25 },
{ "CLBND|CL:R2R:2//53/u<=3.1", 7.03 },
{ "CLBND|CL:R2R:2//53/v<=0.1", 6.69 },
{ "CLBND|CL:R2R:2//53/v<=0.5", 6.65 },
{ "CLBND|CL:R2R:2//53/v<=1", 7.95 },
{ "CLBND|CL:R2R:2//53/v<=1.3", 7.98 },
{ "CLBND|CL:R2R:2//53/v<=1.5", 6.95 },
{ "CLBND|CL:R2R:2//53/v<=1.64", 6.21 },
{ "CLBND|CL:R2R:2//53/v<=1.8", 7.09 },
{ "CLBND|CL:R2R:2//53/v<=1e-06", 6.37 },
{ "CLBND|CL:R2R:2//53/v<=2.1", 7 },
{ "CLBND|CL:R2R:2//53/v<=2.6", 6.88 },
{ "CLBND|CL:R2R:2//53/v<=2.95", 6.57 },
{ "CLBND|CL:R2R:2//53/v<=3.1", 6.42 },
{ "CLBND|CL:R2R:2//53/v<=3.141", 6.37 },
{ "CLBND|CL:R2R:2//53/v>3.141", 6.35 },
{ "CLBND|CL:R2R:2//64/t<=0.1", 7.78 },
{ "CLBND|CL:R2R:2//64/t<=0.5", 8.05 },
{ "CLBND|CL:R2R:2//64/t<=1", 8.7 },
{ "CLBND|CL:R2R:2//64/t<=1.3", 8.31 },
{ "CLBND|CL:R2R:2//64/t<=1.5", 7.75 },
{ "CLBND|CL:R2R:2//64/t<=1.64", 13.7 },
{ "CLBND|CL:R2R:2//64/t<=1.8", 12.8 },
{ "CLBND|CL:R2R:2//64/t<=1e-06", 6.66 },
{ "CLBND|CL:R2R:2//64/t<=2.1", 8.67 },
{ "CLBND|CL:R2R:2//64/t<=2.6", 7.96 },
{ "CLBND|CL:R2R:2//64/t<=2.95", 7.09 },
{ "CLBND|CL:R2R:2//64/t<=3.1", 6.6 },
{ "CLBND|CL:R2R:2//64/t<=3.141", 6.36 },
{ "CLBND|CL:R2R:2//64/t>3.141", 6.3 },
{ "CLBND|CL:R2R:2//64/u<=0.1", 6.3 },
{ "CLBND|CL:R2R:2//64/u<=0.5", 6.33 },
{ "CLBND|CL:R2R:2//64/u<=1", 8.14 },
{ "CLBND|CL:R2R:2//64/u<=1.3", 7.94 },
{ "CLBND|CL:R2R:2//64/u<=1.5", 7.04 },
{ "CLBND|CL:R2R:2//64/u<=1.64", 8.99 },
{ "CLBND|CL:R2R:2//64/u<=1.8", 8.25 },
{ "CLBND|CL:R2R:2//64/u<=1e-06", 6.3 },
{ "CLBND|CL:R2R:2//64/u<=2.1", 7.58 },
{ "CLBND|CL:R2R:2//64/u<=2.6", 7.41 },
{ "CLBND|CL:R2R:2//64/u<=2.95", 6.82 },
{ "CLBND|CL:R2R:2//64/u<=3.1", 6.52 },
{ "CLBND|CL:R2R:2//64/v<=0.1", 6.32 },
{ "CLBND|CL:R2R:2//64/v<=0.5", 6.5 },
{ "CLBND|CL:R2R:2//64/v<=1", 8.08 },
{ "CLBND|CL:R2R:2//64/v<=1.3", 7.95 },
{ "CLBND|CL:R2R:2//64/v<=1.5", 6.91 },
{ "CLBND|CL:R2R:2//64/v<=1.64", 8.01 },
{ "CLBND|CL:R2R:2//64/v<=1.8", 7.57 },
{ "CLBND|CL:R2R:2//64/v<=1e-06", 6.31 },
{ "CLBND|CL:R2R:2//64/v<=2.1", 6.92 },
{ "CLBND|CL:R2R:2//64/v<=2.6", 6.77 },
{ "CLBND|CL:R2R:2//64/v<=2.95", 6.52 },
{ "CLBND|CL:R2R:2//64/v<=3.1", 6.38 },
{ "CLBND|CL:R2R:2//64/v<=3.141", 6.31 },
{ "CLBND|CL:R2R:2//64/v>3.141", 6.29 },
{ "CLBND|CL:R2R:3//53/t<=0.1", 7.21 },
{ "CLBND|CL:R2R:3//53/t<=0.5", 6.5 },
{ "CLBND|CL:R2R:3//53/t<=1", 6.97 },
{ "CLBND|CL:R2R:3//53/t<=1.3", 9.52 },
{ "CLBND|CL:R2R:3//53/t<=1.5", 11.6 },
{ "CLBND|CL:R2R:3//53/t<=1.64", 11.7 },
{ "CLBND|CL:R2R:3//53/t<=1.8", 7.39 },
{ "CLBND|CL:R2R:3//53/t<=1e-06", 6.2 },
{ "CLBND|CL:R2R:3//53/t<=2.1", 7.73 },
{ "CLBND|CL:R2R:3//53/t<=2.6", 7.95 },
{ "CLBND|CL:R2R:3//53/t<=2.95", 9.37 },
{ "CLBND|CL:R2R:3//53/t<=3.1", 11.8 },
{ "CLBND|CL:R2R:3//53/t<=3.141", 14.3 },
{ "CLBND|CL:R2R:3//53/t>3.141", 12 },
{ "CLBND|CL:R2R:3//53/u<=0.1", 7.2 },
{ "CLBND|CL:R2R:3//53/u<=0.5", 6.45 },
{ "CLBND|CL:R2R:3//53/u<=1", 6.47 },
{ "CLBND|CL:R2R:3//53/u<=1.3", 6.99 },
{ "CLBND|CL:R2R:3//53/u<=1.5", 7.31 },
{ "CLBND|CL:R2R:3//53/u<=1.64", 7.56 },
{ "CLBND|CL:R2R:3//53/u<=1.8", 6.51 },
{ "CLBND|CL:R2R:3//53/u<=1e-06", 7.2 },
{ "CLBND|CL:R2R:3//53/u<=2.1", 7.29 },
{ "CLBND|CL:R2R:3//53/u<=2.6", 7.59 },
{ "CLBND|CL:R2R:3//53/u<=2.95", 9.06 },
{ "CLBND|CL:R2R:3//53/u<=3.1", 11.3 },
{ "CLBND|CL:R2R:3//53/v<=0.1", 7.2 },
{ "CLBND|CL:R2R:3//53/v<=0.5", 6.66 },
{ "CLBND|CL:R2R:3//53/v<=1", 6.65 },
{ "CLBND|CL:R2R:3//53/v<=1.3", 6.92 },
{ "CLBND|CL:R2R:3//53/v<=1.5", 7.04 },
{ "CLBND|CL:R2R:3//53/v<=1.64", 6.19 },
{ "CLBND|CL:R2R:3//53/v<=1.8", 6.58 },
{ "CLBND|CL:R2R:3//53/v<=1e-06", 7.2 },
{ "CLBND|CL:R2R:3//53/v<=2.1", 6.74 },
{ "CLBND|CL:R2R:3//53/v<=2.6", 6.83 },
{ "CLBND|CL:R2R:3//53/v<=2.95", 7.97 },
{ "CLBND|CL:R2R:3//53/v<=3.1", 9.36 },
{ "CLBND|CL:R2R:3//53/v<=3.141", 12.5 },
{ "CLBND|CL:R2R:3//53/v>3.141", 12.8 },
{ "CLBND|CL:R2R:3//64/t<=0.1", 7.33 },
{ "CLBND|CL:R2R:3//64/t<=0.5", 7.71 },
{ "CLBND|CL:R2R:3//64/t<=1", 9.04 },
{ "CLBND|CL:R2R:3//64/t<=1.3", 10.4 },
{ "CLBND|CL:R2R:3//64/t<=1.5", 15.8 },
{ "CLBND|CL:R2R:3//64/t<=1.64", 190 },
{ "CLBND|CL:R2R:3//64/t<=1.8", 76 },
{ "CLBND|CL:R2R:3//64/t<=1e-06", 6.46 },
{ "CLBND|CL:R2R:3//64/t<=2.1", 9.8 },
{ "CLBND|CL:R2R:3//64/t<=2.6", 8.29 },
{ "CLBND|CL:R2R:3//64/t<=2.95", 9.55 },
{ "CLBND|CL:R2R:3//64/t<=3.1", 10.7 },
{ "CLBND|CL:R2R:3//64/t<=3.141", 17.4 },
{ "CLBND|CL:R2R:3//64/t>3.141", 13 },
{ "CLBND|CL:R2R:3//64/u<=0.1", 7.29 },
{ "CLBND|CL:R2R:3//64/u<=0.5", 6.49 },
{ "CLBND|CL:R2R:3//64/u<=1", 6.72 },
{ "CLBND|CL:R2R:3//64/u<=1.3", 7.11 },
{ "CLBND|CL:R2R:3//64/u<=1.5", 7.86 },
{ "CLBND|CL:R2R:3//64/u<=1.64", 67.1 },
{ "CLBND|CL:R2R:3//64/u<=1.8", 34.5 },
{ "CLBND|CL:R2R:3//64/u<=1e-06", 7.29 },
{ "CLBND|CL:R2R:3//64/u<=2.1", 7.68 },
{ "CLBND|CL:R2R:3//64/u<=2.6", 8.06 },
{ "CLBND|CL:R2R:3//64/u<=2.95", 9.69 },
{ "CLBND|CL:R2R:3//64/u<=3.1", 12.2 },
{ "CLBND|CL:R2R:3//64/v<=0.1", 7.29 },
{ "CLBND|CL:R2R:3//64/v<=0.5", 6.66 },
{ "CLBND|CL:R2R:3//64/v<=1", 6.78 },
{ "CLBND|CL:R2R:3//64/v<=1.3", 6.95 },
{ "CLBND|CL:R2R:3//64/v<=1.5", 7.54 },
{ "CLBND|CL:R2R:3//64/v<=1.64", 40.4 },
{ "CLBND|CL:R2R:3//64/v<=1.8", 16.1 },
{ "CLBND|CL:R2R:3//64/v<=1e-06", 7.29 },
{ "CLBND|CL:R2R:3//64/v<=2.1", 6.93 },
{ "CLBND|CL:R2R:3//64/v<=2.6", 7.04 },
{ "CLBND|CL:R2R:3//64/v<=2.95", 8.03 },
{ "CLBND|CL:R2R:3//64/v<=3.1", 9.18 },
{ "CLBND|CL:R2R:3//64/v<=3.141", 13.8 },
{ "CLBND|CL:R2R:3//64/v>3.141", 11.9 },
{ "CLBND|CL:R2R:4//53/t<=0.1", 7.07 },
{ "CLBND|CL:R2R:4//53/t<=0.5", 6.3 },
{ "CLBND|CL:R2R:4//53/t<=1", 6.94 },
{ "CLBND|CL:R2R:4//53/t<=1.3", 9.54 },
{ "CLBND|CL:R2R:4//53/t<=1.5", 14.7 },
{ "CLBND|CL:R2R:4//53/t<=1.64", 14.6 },
{ "CLBND|CL:R2R:4//53/t<=1.8", 9.76 },
{ "CLBND|CL:R2R:4//53/t<=1e-06", 6.07 },
{ "CLBND|CL:R2R:4//53/t<=2.1", 8.84 },
{ "CLBND|CL:R2R:4//53/t<=2.6", 7.97 },
{ "CLBND|CL:R2R:4//53/t<=2.95", 7.09 },
{ "CLBND|CL:R2R:4//53/t<=3.1", 6.96 },
{ "CLBND|CL:R2R:4//53/t<=3.141", 6.94 },
{ "CLBND|CL:R2R:4//53/t>3.141", 6.92 },
{ "CLBND|CL:R2R:4//53/u<=0.1", 6.35 },
{ "CLBND|CL:R2R:4//53/u<=0.5", 6.24 },
{ "CLBND|CL:R2R:4//53/u<=1", 6.9 },
{ "CLBND|CL:R2R:4//53/u<=1.3", 8.31 },
{ "CLBND|CL:R2R:4//53/u<=1.5", 13.6 },
{ "CLBND|CL:R2R:4//53/u<=1.64", 11.3 },
{ "CLBND|CL:R2R:4//53/u<=1.8", 8.47 },
{ "CLBND|CL:R2R:4//53/u<=1e-06", 6.35 },
{ "CLBND|CL:R2R:4//53/u<=2.1", 7.61 },
{ "CLBND|CL:R2R:4//53/u<=2.6", 7.51 },
{ "CLBND|CL:R2R:4//53/u<=2.95", 7.29 },
{ "CLBND|CL:R2R:4//53/u<=3.1", 7.07 },
{ "CLBND|CL:R2R:4//53/v<=0.1", 6.4 },
{ "CLBND|CL:R2R:4//53/v<=0.5", 6.41 },
{ "CLBND|CL:R2R:4//53/v<=1", 6.6 },
{ "CLBND|CL:R2R:4//53/v<=1.3", 7.56 },
{ "CLBND|CL:R2R:4//53/v<=1.5", 14.1 },
{ "CLBND|CL:R2R:4//53/v<=1.64", 8.62 },
{ "CLBND|CL:R2R:4//53/v<=1.8", 7.58 },
{ "CLBND|CL:R2R:4//53/v<=1e-06", 6.35 },
{ "CLBND|CL:R2R:4//53/v<=2.1", 7.08 },
{ "CLBND|CL:R2R:4//53/v<=2.6", 6.85 },
{ "CLBND|CL:R2R:4//53/v<=2.95", 6.57 },
{ "CLBND|CL:R2R:4//53/v<=3.1", 6.43 },
{ "CLBND|CL:R2R:4//53/v<=3.141", 6.39 },
{ "CLBND|CL:R2R:4//53/v>3.141", 6.35 },
{ "CLBND|CL:R2R:4//64/t<=0.1", 7.14 },
{ "CLBND|CL:R2R:4//64/t<=0.5", 7.35 },
{ "CLBND|CL:R2R:4//64/t<=1", 8.09 },
{ "CLBND|CL:R2R:4//64/t<=1.3", 9.26 },
{ "CLBND|CL:R2R:4//64/t<=1.5", 14.5 },
{ "CLBND|CL:R2R:4//64/t<=1.64", 80.9 },
{ "CLBND|CL:R2R:4//64/t<=1.8", 34.9 },
{ "CLBND|CL:R2R:4//64/t<=1e-06", 6.12 },
{ "CLBND|CL:R2R:4//64/t<=2.1", 10 },
{ "CLBND|CL:R2R:4//64/t<=2.6", 8.71 },
{ "CLBND|CL:R2R:4//64/t<=2.95", 7.4 },
{ "CLBND|CL:R2R:4//64/t<=3.1", 6.57 },
{ "CLBND|CL:R2R:4//64/t<=3.141", 6.35 },
{ "CLBND|CL:R2R:4//64/t>3.141", 6.3 },
{ "CLBND|CL:R2R:4//64/u<=0.1", 6.3 },
{ "CLBND|CL:R2R:4//64/u<=0.5", 6.21 },
{ "CLBND|CL:R2R:4//64/u<=1", 6.73 },
{ "CLBND|CL:R2R:4//64/u<=1.3", 8.01 },
{ "CLBND|CL:R2R:4//64/u<=1.5", 15.5 },
{ "CLBND|CL:R2R:4//64/u<=1.64", 57.8 },
{ "CLBND|CL:R2R:4//64/u<=1.8", 29 },
{ "CLBND|CL:R2R:4//64/u<=1e-06", 6.29 },
{ "CLBND|CL:R2R:4//64/u<=2.1", 8.26 },
{ "CLBND|CL:R2R:4//64/u<=2.6", 7.4 },
{ "CLBND|CL:R2R:4//64/u<=2.95", 6.84 },
{ "CLBND|CL:R2R:4//64/u<=3.1", 6.49 },
{ "CLBND|CL:R2R:4//64/v<=0.1", 6.3 },
{ "CLBND|CL:R2R:4//64/v<=0.5", 6.37 },
{ "CLBND|CL:R2R:4//64/v<=1", 6.57 },
{ "CLBND|CL:R2R:4//64/v<=1.3", 7.72 },
{ "CLBND|CL:R2R:4//64/v<=1.5", 11.9 },
{ "CLBND|CL:R2R:4//64/v<=1.64", 44.6 },
{ "CLBND|CL:R2R:4//64/v<=1.8", 17.4 },
{ "CLBND|CL:R2R:4//64/v<=1e-06", 6.29 },
{ "CLBND|CL:R2R:4//64/v<=2.1", 7.72 },
{ "CLBND|CL:R2R:4//64/v<=2.6", 7.09 },
{ "CLBND|CL:R2R:4//64/v<=2.95", 6.59 },
{ "CLBND|CL:R2R:4//64/v<=3.1", 6.36 },
{ "CLBND|CL:R2R:4//64/v<=3.141", 6.31 },
{ "CLBND|CL:R2R:4//64/v>3.141", 6.29 },
{ "CLBND|CL:R2R:5//53/t<=0.1", 11.8 },
{ "CLBND|CL:R2R:5//53/t<=0.5", 9.61 },
{ "CLBND|CL:R2R:5//53/t<=1", 7.59 },
{ "CLBND|CL:R2R:5//53/t<=1.3", 7.98 },
{ "CLBND|CL:R2R:5//53/t<=1.5", 7.77 },
{ "CLBND|CL:R2R:5//53/t<=1.64", 7.87 },
{ "CLBND|CL:R2R:5//53/t<=1.8", 7.46 },
{ "CLBND|CL:R2R:5//53/t<=1e-06", 7.9 },
{ "CLBND|CL:R2R:5//53/t<=2.1", 7.64 },
{ "CLBND|CL:R2R:5//53/t<=2.6", 7.79 },
{ "CLBND|CL:R2R:5//53/t<=2.95", 9 },
{ "CLBND|CL:R2R:5//53/t<=3.1", 10.4 },
{ "CLBND|CL:R2R:5//53/t<=3.141", 13.2 },
{ "CLBND|CL:R2R:5//53/t>3.141", 11.1 },
{ "CLBND|CL:R2R:5//53/u<=0.1", 10.8 },
{ "CLBND|CL:R2R:5//53/u<=0.5", 8.65 },
{ "CLBND|CL:R2R:5//53/u<=1", 6.77 },
{ "CLBND|CL:R2R:5//53/u<=1.3", 6.48 },
{ "CLBND|CL:R2R:5//53/u<=1.5", 6.52 },
{ "CLBND|CL:R2R:5//53/u<=1.64", 6.56 },
{ "CLBND|CL:R2R:5//53/u<=1.8", 6.51 },
{ "CLBND|CL:R2R:5//53/u<=1e-06", 8.9 },
{ "CLBND|CL:R2R:5//53/u<=2.1", 7.29 },
{ "CLBND|CL:R2R:5//53/u<=2.6", 7.74 },
{ "CLBND|CL:R2R:5//53/u<=2.95", 8.84 },
{ "CLBND|CL:R2R:5//53/u<=3.1", 10.9 },
{ "CLBND|CL:R2R:5//53/v<=0.1", 11.4 },
{ "CLBND|CL:R2R:5//53/v<=0.5", 8.22 },
{ "CLBND|CL:R2R:5//53/v<=1", 6.63 },
{ "CLBND|CL:R2R:5//53/v<=1.3", 6.57 },
{ "CLBND|CL:R2R:5//53/v<=1.5", 6.6 },
{ "CLBND|CL:R2R:5//53/v<=1.64", 6 },
{ "CLBND|CL:R2R:5//53/v<=1.8", 6.58 },
{ "CLBND|CL:R2R:5//53/v<=1e-06", 8.9 },
{ "CLBND|CL:R2R:5//53/v<=2.1", 6.74 },
{ "CLBND|CL:R2R:5//53/v<=2.6", 6.84 },
{ "CLBND|CL:R2R:5//53/v<=2.95", 7.66 },
{ "CLBND|CL:R2R:5//53/v<=3.1", 8.74 },
{ "CLBND|CL:R2R:5//53/v<=3.141", 12.6 },
{ "CLBND|CL:R2R:5//53/v>3.141", 12.5 },
{ "CLBND|CL:R2R:5//64/t<=0.1", 12.8 },
{ "CLBND|CL:R2R:5//64/t<=0.5", 12.5 },
{ "CLBND|CL:R2R:5//64/t<=1", 8.88 },
{ "CLBND|CL:R2R:5//64/t<=1.3", 8.04 },
{ "CLBND|CL:R2R:5//64/t<=1.5", 8.12 },
{ "CLBND|CL:R2R:5//64/t<=1.64", 306 },
{ "CLBND|CL:R2R:5//64/t<=1.8", 73.3 },
{ "CLBND|CL:R2R:5//64/t<=1e-06", 7.5 },
{ "CLBND|CL:R2R:5//64/t<=2.1", 9.49 },
{ "CLBND|CL:R2R:5//64/t<=2.6", 8.04 },
{ "CLBND|CL:R2R:5//64/t<=2.95", 9.32 },
{ "CLBND|CL:R2R:5//64/t<=3.1", 10.5 },
{ "CLBND|CL:R2R:5//64/t<=3.141", 15.3 },
{ "CLBND|CL:R2R:5//64/t>3.141", 12.1 },
{ "CLBND|CL:R2R:5//64/u<=0.1", 11.7 },
{ "CLBND|CL:R2R:5//64/u<=0.5", 8.7 },
{ "CLBND|CL:R2R:5//64/u<=1", 6.76 },
{ "CLBND|CL:R2R:5//64/u<=1.3", 6.52 },
{ "CLBND|CL:R2R:5//64/u<=1.5", 6.59 },
{ "CLBND|CL:R2R:5//64/u<=1.64", 92.9 },
{ "CLBND|CL:R2R:5//64/u<=1.8", 33.5 },
{ "CLBND|CL:R2R:5//64/u<=1e-06", 8.42 },
{ "CLBND|CL:R2R:5//64/u<=2.1", 7.37 },
{ "CLBND|CL:R2R:5//64/u<=2.6", 7.86 },
{ "CLBND|CL:R2R:5//64/u<=2.95", 9 },
{ "CLBND|CL:R2R:5//64/u<=3.1", 11.7 },
{ "CLBND|CL:R2R:5//64/v<=0.1", 9.91 },
{ "CLBND|CL:R2R:5//64/v<=0.5", 8.46 },
{ "CLBND|CL:R2R:5//64/v<=1", 6.78 },
{ "CLBND|CL:R2R:5//64/v<=1.3", 6.52 },
{ "CLBND|CL:R2R:5//64/v<=1.5", 6.5 },
{ "CLBND|CL:R2R:5//64/v<=1.64", 57.8 },
{ "CLBND|CL:R2R:5//64/v<=1.8", 15.7 },
{ "CLBND|CL:R2R:5//64/v<=1e-06", 8.47 },
{ "CLBND|CL:R2R:5//64/v<=2.1", 6.79 },
{ "CLBND|CL:R2R:5//64/v<=2.6", 6.87 },
{ "CLBND|CL:R2R:5//64/v<=2.95", 7.74 },
{ "CLBND|CL:R2R:5//64/v<=3.1", 9.27 },
{ "CLBND|CL:R2R:5//64/v<=3.141", 12.6 },
{ "CLBND|CL:R2R:5//64/v>3.141", 13.6 },
{ "CLBND|CL:R2R:6//53/t<=0.1", 8.53 },
{ "CLBND|CL:R2R:6//53/t<=0.5", 8.18 },
{ "CLBND|CL:R2R:6//53/t<=1", 7.77 },
{ "CLBND|CL:R2R:6//53/t<=1.3", 9.02 },
{ "CLBND|CL:R2R:6//53/t<=1.5", 10.8 },
{ "CLBND|CL:R2R:6//53/t<=1.64", 11.8 },
{ "CLBND|CL:R2R:6//53/t<=1.8", 9.42 },
{ "CLBND|CL:R2R:6//53/t<=1e-06", 6.73 },
{ "CLBND|CL:R2R:6//53/t<=2.1", 8.5 },
{ "CLBND|CL:R2R:6//53/t<=2.6", 8.06 },
{ "CLBND|CL:R2R:6//53/t<=2.95", 7.13 },
{ "CLBND|CL:R2R:6//53/t<=3.1", 6.96 },
{ "CLBND|CL:R2R:6//53/t<=3.141", 6.96 },
{ "CLBND|CL:R2R:6//53/t>3.141", 6.92 },
{ "CLBND|CL:R2R:6//53/u<=0.1", 6.36 },
{ "CLBND|CL:R2R:6//53/u<=0.5", 6.4 },
{ "CLBND|CL:R2R:6//53/u<=1", 6.93 },
{ "CLBND|CL:R2R:6//53/u<=1.3", 7.67 },
{ "CLBND|CL:R2R:6//53/u<=1.5", 9.37 },
{ "CLBND|CL:R2R:6//53/u<=1.64", 11 },
{ "CLBND|CL:R2R:6//53/u<=1.8", 8.65 },
{ "CLBND|CL:R2R:6//53/u<=1e-06", 6.35 },
{ "CLBND|CL:R2R:6//53/u<=2.1", 7.8 },
{ "CLBND|CL:R2R:6//53/u<=2.6", 7.66 },
{ "CLBND|CL:R2R:6//53/u<=2.95", 7.33 },
{ "CLBND|CL:R2R:6//53/u<=3.1", 7.08 },
{ "CLBND|CL:R2R:6//53/v<=0.1", 6.39 },
{ "CLBND|CL:R2R:6//53/v<=0.5", 6.49 },
{ "CLBND|CL:R2R:6//53/v<=1", 6.66 },
{ "CLBND|CL:R2R:6//53/v<=1.3", 7.39 },
{ "CLBND|CL:R2R:6//53/v<=1.5", 8.93 },
{ "CLBND|CL:R2R:6//53/v<=1.64", 9.01 },
{ "CLBND|CL:R2R:6//53/v<=1.8", 8.01 },
{ "CLBND|CL:R2R:6//53/v<=1e-06", 6.35 },
{ "CLBND|CL:R2R:6//53/v<=2.1", 7.04 },
{ "CLBND|CL:R2R:6//53/v<=2.6", 6.94 },
{ "CLBND|CL:R2R:6//53/v<=2.95", 6.59 },
{ "CLBND|CL:R2R:6//53/v<=3.1", 6.43 },
{ "CLBND|CL:R2R:6//53/v<=3.141", 6.37 },
{ "CLBND|CL:R2R:6//53/v>3.141", 6.35 },
{ "CLBND|CL:R2R:6//64/t<=0.1", 8.69 },
{ "CLBND|CL:R2R:6//64/t<=0.5", 8.89 },
{ "CLBND|CL:R2R:6//64/t<=1", 8.6 },
{ "CLBND|CL:R2R:6//64/t<=1.3", 9.61 },
{ "CLBND|CL:R2R:6//64/t<=1.5", 13.6 },
{ "CLBND|CL:R2R:6//64/t<=1.64", 856 },
{ "CLBND|CL:R2R:6//64/t<=1.8", 308 },
{ "CLBND|CL:R2R:6//64/t<=1e-06", 6.62 },
{ "CLBND|CL:R2R:6//64/t<=2.1", 23 },
{ "CLBND|CL:R2R:6//64/t<=2.6", 8.87 },
{ "CLBND|CL:R2R:6//64/t<=2.95", 7.45 },
{ "CLBND|CL:R2R:6//64/t<=3.1", 6.59 },
{ "CLBND|CL:R2R:6//64/t<=3.141", 6.36 },
{ "CLBND|CL:R2R:6//64/t>3.141", 6.3 },
{ "CLBND|CL:R2R:6//64/u<=0.1", 6.3 },
{ "CLBND|CL:R2R:6//64/u<=0.5", 6.34 },
{ "CLBND|CL:R2R:6//64/u<=1", 6.89 },
{ "CLBND|CL:R2R:6//64/u<=1.3", 8.15 },
{ "CLBND|CL:R2R:6//64/u<=1.5", 11.6 },
{ "CLBND|CL:R2R:6//64/u<=1.64", 839 },
{ "CLBND|CL:R2R:6//64/u<=1.8", 221 },
{ "CLBND|CL:R2R:6//64/u<=1e-06", 6.29 },
{ "CLBND|CL:R2R:6//64/u<=2.1", 17.6 },
{ "CLBND|CL:R2R:6//64/u<=2.6", 7.61 },
{ "CLBND|CL:R2R:6//64/u<=2.95", 6.94 },
{ "CLBND|CL:R2R:6//64/u<=3.1", 6.48 },
{ "CLBND|CL:R2R:6//64/v<=0.1", 6.35 },
{ "CLBND|CL:R2R:6//64/v<=0.5", 6.5 },
{ "CLBND|CL:R2R:6//64/v<=1", 6.76 },
{ "CLBND|CL:R2R:6//64/v<=1.3", 7.69 },
{ "CLBND|CL:R2R:6//64/v<=1.5", 9.42 },
{ "CLBND|CL:R2R:6//64/v<=1.64", 739 },
{ "CLBND|CL:R2R:6//64/v<=1.8", 129 },
{ "CLBND|CL:R2R:6//64/v<=1e-06", 6.29 },
{ "CLBND|CL:R2R:6//64/v<=2.1", 9.78 },
{ "CLBND|CL:R2R:6//64/v<=2.6", 7.21 },
{ "CLBND|CL:R2R:6//64/v<=2.95", 6.58 },
{ "CLBND|CL:R2R:6//64/v<=3.1", 6.38 },
{ "CLBND|CL:R2R:6//64/v<=3.141", 6.31 },
{ "CLBND|CL:R2R:6//64/v>3.141", 6.29 },
{ "CLBND|SL:NR2R:0/1/53/t<=0.1", 6.99 },
{ "CLBND|SL:NR2R:0/1/53/t<=0.5", 6.99 },
{ "CLBND|SL:NR2R:0/1/53/t<=1", 6.99 },
{ "CLBND|SL:NR2R:0/1/53/t<=1.3", 6.99 },
{ "CLBND|SL:NR2R:0/1/53/t<=1.5", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=1.64", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=1.8", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=1e-06", 6.99 },
{ "CLBND|SL:NR2R:0/1/53/t<=2.1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=2.6", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=2.95", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/t<=3.1", 6.9 },
{ "CLBND|SL:NR2R:0/1/53/t<=3.141", 6.92 },
{ "CLBND|SL:NR2R:0/1/53/t>3.141", 6.92 },
{ "CLBND|SL:NR2R:0/1/53/u<=0.1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/u<=0.5", 6.32 },
{ "CLBND|SL:NR2R:0/1/53/u<=1", 6.15 },
{ "CLBND|SL:NR2R:0/1/53/u<=1.3", 6.15 },
{ "CLBND|SL:NR2R:0/1/53/u<=1.5", 6.14 },
{ "CLBND|SL:NR2R:0/1/53/u<=1.64", 6.15 },
{ "CLBND|SL:NR2R:0/1/53/u<=1.8", 6.15 },
{ "CLBND|SL:NR2R:0/1/53/u<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/u<=2.1", 6.55 },
{ "CLBND|SL:NR2R:0/1/53/u<=2.6", 6.69 },
{ "CLBND|SL:NR2R:0/1/53/u<=2.95", 6.82 },
{ "CLBND|SL:NR2R:0/1/53/u<=3.1", 6.89 },
{ "CLBND|SL:NR2R:0/1/53/v<=0.1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=0.5", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1.3", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1.5", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1.64", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1.8", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=2.1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=2.6", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=2.95", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=3.1", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v<=3.141", 6.35 },
{ "CLBND|SL:NR2R:0/1/53/v>3.141", 6.35 },
{ "CLBND|SL:NR2R:0/2/53/t<=0.1", 6.86 },
{ "CLBND|SL:NR2R:0/2/53/t<=0.5", 7.2 },
{ "CLBND|SL:NR2R:0/2/53/t<=1", 7.62 },
{ "CLBND|SL:NR2R:0/2/53/t<=1.3", 8.22 },
{ "CLBND|SL:NR2R:0/2/53/t<=1.5", 8.29 },
{ "CLBND|SL:NR2R:0/2/53/t<=1.64", 8.21 },
{ "CLBND|SL:NR2R:0/2/53/t<=1.8", 8.85 },
{ "CLBND|SL:NR2R:0/2/53/t<=1e-06", 6.77 },
{ "CLBND|SL:NR2R:0/2/53/t<=2.1", 9.04 },
{ "CLBND|SL:NR2R:0/2/53/t<=2.6", 9.71 },
{ "CLBND|SL:NR2R:0/2/53/t<=2.95", 9.15 },
{ "CLBND|SL:NR2R:0/2/53/t<=3.1", 11.6 },
{ "CLBND|SL:NR2R:0/2/53/t<=3.141", 12.6 },
{ "CLBND|SL:NR2R:0/2/53/t>3.141", 12.6 },
{ "CLBND|SL:NR2R:0/2/53/u<=0.1", 6.41 },
{ "CLBND|SL:NR2R:0/2/53/u<=0.5", 6.17 },
{ "CLBND|SL:NR2R:0/2/53/u<=1", 6.17 },
{ "CLBND|SL:NR2R:0/2/53/u<=1.3", 6.22 },
{ "CLBND|SL:NR2R:0/2/53/u<=1.5", 6.25 },
{ "CLBND|SL:NR2R:0/2/53/u<=1.64", 6.28 },
{ "CLBND|SL:NR2R:0/2/53/u<=1.8", 6.6 },
{ "CLBND|SL:NR2R:0/2/53/u<=1e-06", 6.41 },
{ "CLBND|SL:NR2R:0/2/53/u<=2.1", 7.51 },
{ "CLBND|SL:NR2R:0/2/53/u<=2.6", 7.9 },
{ "CLBND|SL:NR2R:0/2/53/u<=2.95", 8.77 },
{ "CLBND|SL:NR2R:0/2/53/u<=3.1", 10.9 },
{ "CLBND|SL:NR2R:0/2/53/v<=0.1", 6.42 },
{ "CLBND|SL:NR2R:0/2/53/v<=0.5", 6.45 },
{ "CLBND|SL:NR2R:0/2/53/v<=1", 6.39 },
{ "CLBND|SL:NR2R:0/2/53/v<=1.3", 6.38 },
{ "CLBND|SL:NR2R:0/2/53/v<=1.5", 6.37 },
{ "CLBND|SL:NR2R:0/2/53/v<=1.64", 6.35 },
{ "CLBND|SL:NR2R:0/2/53/v<=1.8", 6.48 },
{ "CLBND|SL:NR2R:0/2/53/v<=1e-06", 6.38 },
{ "CLBND|SL:NR2R:0/2/53/v<=2.1", 6.49 },
{ "CLBND|SL:NR2R:0/2/53/v<=2.6", 6.94 },
{ "CLBND|SL:NR2R:0/2/53/v<=2.95", 7.88 },
{ "CLBND|SL:NR2R:0/2/53/v<=3.1", 9.52 },
{ "CLBND|SL:NR2R:0/2/53/v<=3.141", 12.4 },
{ "CLBND|SL:NR2R:0/2/53/v>3.141", 12.6 },
{ "CLBND|SL:NR2R:0/200+/53/t<=0.1", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/t<=0.5", 6 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1", 6.53 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1.3", 6.38 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1.5", 6.45 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1.64", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1.8", 6.45 },
{ "CLBND|SL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "CLBND|SL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "CLBND|SL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "CLBND|SL:NR2R:0/200+/53/t<=2.95", 6.32 },
{ "CLBND|SL:NR2R:0/200+/53/t<=3.1", 6.57 },
{ "CLBND|SL:NR2R:0/200+/53/t<=3.141", 6.57 },
{ "CLBND|SL:NR2R:0/200+/53/t>3.141", 6.57 },
{ "CLBND|SL:NR2R:0/200+/53/u<=0.1", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/u<=0.5", 6.31 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1", 6.16 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1.3", 6.24 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1.5", 6.38 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1.8", 6.39 },
{ "CLBND|SL:NR2R:0/200+/53/u<=1e-06", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/u<=2.1", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "CLBND|SL:NR2R:0/200+/53/u<=2.95", 6.56 },
{ "CLBND|SL:NR2R:0/200+/53/u<=3.1", 6.57 },
{ "CLBND|SL:NR2R:0/200+/53/v<=0.1", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1", 6.38 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1.3", 6.36 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1.5", 6.42 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1.8", 6.42 },
{ "CLBND|SL:NR2R:0/200+/53/v<=1e-06", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/v<=2.1", 6.35 },
{ "CLBND|SL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "CLBND|SL:NR2R:0/200+/53/v<=2.95", 6.36 },
{ "CLBND|SL:NR2R:0/200+/53/v<=3.1", 6.42 },
{ "CLBND|SL:NR2R:0/200+/53/v<=3.141", 6.5 },
{ "CLBND|SL:NR2R:0/200+/53/v>3.141", 6.5 },
{ "CLBND|SL:NR2R:0/3/53/t<=0.1", 6.85 },
{ "CLBND|SL:NR2R:0/3/53/t<=0.5", 7.11 },
{ "CLBND|SL:NR2R:0/3/53/t<=1", 7.65 },
{ "CLBND|SL:NR2R:0/3/53/t<=1.3", 7.97 },
{ "CLBND|SL:NR2R:0/3/53/t<=1.5", 8.12 },
{ "CLBND|SL:NR2R:0/3/53/t<=1.64", 8.72 },
{ "CLBND|SL:NR2R:0/3/53/t<=1.8", 8.7 },
{ "CLBND|SL:NR2R:0/3/53/t<=1e-06", 6.87 },
{ "CLBND|SL:NR2R:0/3/53/t<=2.1", 8.73 },
{ "CLBND|SL:NR2R:0/3/53/t<=2.6", 8.6 },
{ "CLBND|SL:NR2R:0/3/53/t<=2.95", 8.93 },
{ "CLBND|SL:NR2R:0/3/53/t<=3.1", 10.2 },
{ "CLBND|SL:NR2R:0/3/53/t<=3.141", 10.8 },
{ "CLBND|SL:NR2R:0/3/53/t>3.141", 10.8 },
{ "CLBND|SL:NR2R:0/3/53/u<=0.1", 6.35 },
{ "CLBND|SL:NR2R:0/3/53/u<=0.5", 6.24 },
{ "CLBND|SL:NR2R:0/3/53/u<=1", 6.62 },
{ "CLBND|SL:NR2R:0/3/53/u<=1.3", 7.67 },
{ "CLBND|SL:NR2R:0/3/53/u<=1.5", 8.07 },
{ "CLBND|SL:NR2R:0/3/53/u<=1.64", 7.89 },
{ "CLBND|SL:NR2R:0/3/53/u<=1.8", 7.75 },
{ "CLBND|SL:NR2R:0/3/53/u<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/3/53/u<=2.1", 7.7 },
{ "CLBND|SL:NR2R:0/3/53/u<=2.6", 8.29 },
{ "CLBND|SL:NR2R:0/3/53/u<=2.95", 8.97 },
{ "CLBND|SL:NR2R:0/3/53/u<=3.1", 10.1 },
{ "CLBND|SL:NR2R:0/3/53/v<=0.1", 6.45 },
{ "CLBND|SL:NR2R:0/3/53/v<=0.5", 6.44 },
{ "CLBND|SL:NR2R:0/3/53/v<=1", 6.69 },
{ "CLBND|SL:NR2R:0/3/53/v<=1.3", 7.3 },
{ "CLBND|SL:NR2R:0/3/53/v<=1.5", 7.88 },
{ "CLBND|SL:NR2R:0/3/53/v<=1.64", 7.54 },
{ "CLBND|SL:NR2R:0/3/53/v<=1.8", 7.32 },
{ "CLBND|SL:NR2R:0/3/53/v<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/3/53/v<=2.1", 7.15 },
{ "CLBND|SL:NR2R:0/3/53/v<=2.6", 7.12 },
{ "CLBND|SL:NR2R:0/3/53/v<=2.95", 7.16 },
{ "CLBND|SL:NR2R:0/3/53/v<=3.1", 7.22 },
{ "CLBND|SL:NR2R:0/3/53/v<=3.141", 7.23 },
{ "CLBND|SL:NR2R:0/3/53/v>3.141", 7.25 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=0.1", 8.36 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=0.5", 7.41 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1", 7.38 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1.3", 7.05 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1.64", 7.33 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1.8", 7.2 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=1e-06", 7.36 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=2.1", 6.88 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=2.6", 6.65 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=2.95", 6.89 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=3.1", 7.17 },
{ "CLBND|SL:NR2R:0/30-199/53/t<=3.141", 7.42 },
{ "CLBND|SL:NR2R:0/30-199/53/t>3.141", 7.2 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=0.1", 8.34 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=0.5", 6.83 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1", 6.39 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1.3", 6.59 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1.5", 6.99 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1.64", 7.4 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1.8", 6.95 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=1e-06", 8.36 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=2.1", 6.69 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=2.6", 6.84 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=2.95", 7.05 },
{ "CLBND|SL:NR2R:0/30-199/53/u<=3.1", 7.17 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=0.1", 8.34 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=0.5", 6.87 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1", 6.54 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1.3", 6.55 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1.5", 6.7 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1.64", 7.36 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1.8", 6.79 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=1e-06", 8.36 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=2.1", 6.55 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=2.6", 6.47 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=2.95", 6.58 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=3.1", 6.92 },
{ "CLBND|SL:NR2R:0/30-199/53/v<=3.141", 7.33 },
{ "CLBND|SL:NR2R:0/30-199/53/v>3.141", 7.2 },
{ "CLBND|SL:NR2R:0/4/53/t<=0.1", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/t<=0.5", 7.33 },
{ "CLBND|SL:NR2R:0/4/53/t<=1", 7.18 },
{ "CLBND|SL:NR2R:0/4/53/t<=1.3", 7.61 },
{ "CLBND|SL:NR2R:0/4/53/t<=1.5", 8.11 },
{ "CLBND|SL:NR2R:0/4/53/t<=1.64", 8.31 },
{ "CLBND|SL:NR2R:0/4/53/t<=1.8", 8.44 },
{ "CLBND|SL:NR2R:0/4/53/t<=1e-06", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/t<=2.1", 10.4 },
{ "CLBND|SL:NR2R:0/4/53/t<=2.6", 17.8 },
{ "CLBND|SL:NR2R:0/4/53/t<=2.95", 39.5 },
{ "CLBND|SL:NR2R:0/4/53/t<=3.1", 57.7 },
{ "CLBND|SL:NR2R:0/4/53/t<=3.141", 66.8 },
{ "CLBND|SL:NR2R:0/4/53/t>3.141", 65.1 },
{ "CLBND|SL:NR2R:0/4/53/u<=0.1", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/u<=0.5", 6.69 },
{ "CLBND|SL:NR2R:0/4/53/u<=1", 6.27 },
{ "CLBND|SL:NR2R:0/4/53/u<=1.3", 6.54 },
{ "CLBND|SL:NR2R:0/4/53/u<=1.5", 6.69 },
{ "CLBND|SL:NR2R:0/4/53/u<=1.64", 6.77 },
{ "CLBND|SL:NR2R:0/4/53/u<=1.8", 6.9 },
{ "CLBND|SL:NR2R:0/4/53/u<=1e-06", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/u<=2.1", 7.31 },
{ "CLBND|SL:NR2R:0/4/53/u<=2.6", 13.6 },
{ "CLBND|SL:NR2R:0/4/53/u<=2.95", 36.2 },
{ "CLBND|SL:NR2R:0/4/53/u<=3.1", 53 },
{ "CLBND|SL:NR2R:0/4/53/v<=0.1", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/v<=0.5", 6.81 },
{ "CLBND|SL:NR2R:0/4/53/v<=1", 6.5 },
{ "CLBND|SL:NR2R:0/4/53/v<=1.3", 6.52 },
{ "CLBND|SL:NR2R:0/4/53/v<=1.5", 6.53 },
{ "CLBND|SL:NR2R:0/4/53/v<=1.64", 6.53 },
{ "CLBND|SL:NR2R:0/4/53/v<=1.8", 6.58 },
{ "CLBND|SL:NR2R:0/4/53/v<=1e-06", 7.32 },
{ "CLBND|SL:NR2R:0/4/53/v<=2.1", 6.78 },
{ "CLBND|SL:NR2R:0/4/53/v<=2.6", 8.16 },
{ "CLBND|SL:NR2R:0/4/53/v<=2.95", 21.9 },
{ "CLBND|SL:NR2R:0/4/53/v<=3.1", 41.3 },
{ "CLBND|SL:NR2R:0/4/53/v<=3.141", 63.2 },
{ "CLBND|SL:NR2R:0/4/53/v>3.141", 67.5 },
{ "CLBND|SL:NR2R:0/5/53/t<=0.1", 7.13 },
{ "CLBND|SL:NR2R:0/5/53/t<=0.5", 7.24 },
{ "CLBND|SL:NR2R:0/5/53/t<=1", 7.25 },
{ "CLBND|SL:NR2R:0/5/53/t<=1.3", 7.63 },
{ "CLBND|SL:NR2R:0/5/53/t<=1.5", 8.58 },
{ "CLBND|SL:NR2R:0/5/53/t<=1.64", 8.73 },
{ "CLBND|SL:NR2R:0/5/53/t<=1.8", 8.43 },
{ "CLBND|SL:NR2R:0/5/53/t<=1e-06", 7.12 },
{ "CLBND|SL:NR2R:0/5/53/t<=2.1", 8.54 },
{ "CLBND|SL:NR2R:0/5/53/t<=2.6", 9.17 },
{ "CLBND|SL:NR2R:0/5/53/t<=2.95", 15.5 },
{ "CLBND|SL:NR2R:0/5/53/t<=3.1", 16.5 },
{ "CLBND|SL:NR2R:0/5/53/t<=3.141", 17.4 },
{ "CLBND|SL:NR2R:0/5/53/t>3.141", 16.9 },
{ "CLBND|SL:NR2R:0/5/53/u<=0.1", 6.35 },
{ "CLBND|SL:NR2R:0/5/53/u<=0.5", 6.23 },
{ "CLBND|SL:NR2R:0/5/53/u<=1", 6.44 },
{ "CLBND|SL:NR2R:0/5/53/u<=1.3", 7.03 },
{ "CLBND|SL:NR2R:0/5/53/u<=1.5", 8.18 },
{ "CLBND|SL:NR2R:0/5/53/u<=1.64", 8.25 },
{ "CLBND|SL:NR2R:0/5/53/u<=1.8", 7.42 },
{ "CLBND|SL:NR2R:0/5/53/u<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/5/53/u<=2.1", 7.53 },
{ "CLBND|SL:NR2R:0/5/53/u<=2.6", 7.77 },
{ "CLBND|SL:NR2R:0/5/53/u<=2.95", 10.7 },
{ "CLBND|SL:NR2R:0/5/53/u<=3.1", 12.8 },
{ "CLBND|SL:NR2R:0/5/53/v<=0.1", 6.37 },
{ "CLBND|SL:NR2R:0/5/53/v<=0.5", 6.41 },
{ "CLBND|SL:NR2R:0/5/53/v<=1", 6.41 },
{ "CLBND|SL:NR2R:0/5/53/v<=1.3", 6.66 },
{ "CLBND|SL:NR2R:0/5/53/v<=1.5", 7.86 },
{ "CLBND|SL:NR2R:0/5/53/v<=1.64", 8.13 },
{ "CLBND|SL:NR2R:0/5/53/v<=1.8", 7.45 },
{ "CLBND|SL:NR2R:0/5/53/v<=1e-06", 6.35 },
{ "CLBND|SL:NR2R:0/5/53/v<=2.1", 6.89 },
{ "CLBND|SL:NR2R:0/5/53/v<=2.6", 6.92 },
{ "CLBND|SL:NR2R:0/5/53/v<=2.95", 7.53 },
{ "CLBND|SL:NR2R:0/5/53/v<=3.1", 7.69 },
{ "CLBND|SL:NR2R:0/5/53/v<=3.141", 7.97 },
{ "CLBND|SL:NR2R:0/5/53/v>3.141", 8.07 },
{ "CLBND|SL:NR2R:0/6/53/t<=0.1", 7.85 },
{ "CLBND|SL:NR2R:0/6/53/t<=0.5", 7.84 },
{ "CLBND|SL:NR2R:0/6/53/t<=1", 7.71 },
{ "CLBND|SL:NR2R:0/6/53/t<=1.3", 7.7 },
{ "CLBND|SL:NR2R:0/6/53/t<=1.5", 7.9 },
{ "CLBND|SL:NR2R:0/6/53/t<=1.64", 8.27 },
{ "CLBND|SL:NR2R:0/6/53/t<=1.8", 8.2 },
{ "CLBND|SL:NR2R:0/6/53/t<=1e-06", 12.9 },
{ "CLBND|SL:NR2R:0/6/53/t<=2.1", 8.28 },
{ "CLBND|SL:NR2R:0/6/53/t<=2.6", 8.64 },
{ "CLBND|SL:NR2R:0/6/53/t<=2.95", 14 },
{ "CLBND|SL:NR2R:0/6/53/t<=3.1", 24.1 },
{ "CLBND|SL:NR2R:0/6/53/t<=3.141", 28.8 },
{ "CLBND|SL:NR2R:0/6/53/t>3.141", 33 },
{ "CLBND|SL:NR2R:0/6/53/u<=0.1", 7.85 },
{ "CLBND|SL:NR2R:0/6/53/u<=0.5", 7.09 },
{ "CLBND|SL:NR2R:0/6/53/u<=1", 6.49 },
{ "CLBND|SL:NR2R:0/6/53/u<=1.3", 6.51 },
{ "CLBND|SL:NR2R:0/6/53/u<=1.5", 6.65 },
{ "CLBND|SL:NR2R:0/6/53/u<=1.64", 6.84 },
{ "CLBND|SL:NR2R:0/6/53/u<=1.8", 6.87 },
{ "CLBND|SL:NR2R:0/6/53/u<=1e-06", 12.9 },
{ "CLBND|SL:NR2R:0/6/53/u<=2.1", 7.07 },
{ "CLBND|SL:NR2R:0/6/53/u<=2.6", 7.9 },
{ "CLBND|SL:NR2R:0/6/53/u<=2.95", 12.5 },
{ "CLBND|SL:NR2R:0/6/53/u<=3.1", 19.5 },
{ "CLBND|SL:NR2R:0/6/53/v<=0.1", 7.84 },
{ "CLBND|SL:NR2R:0/6/53/v<=0.5", 6.94 },
{ "CLBND|SL:NR2R:0/6/53/v<=1", 6.42 },
{ "CLBND|SL:NR2R:0/6/53/v<=1.3", 6.42 },
{ "CLBND|SL:NR2R:0/6/53/v<=1.5", 6.48 },
{ "CLBND|SL:NR2R:0/6/53/v<=1.64", 6.54 },
{ "CLBND|SL:NR2R:0/6/53/v<=1.8", 6.6 },
{ "CLBND|SL:NR2R:0/6/53/v<=1e-06", 12.9 },
{ "CLBND|SL:NR2R:0/6/53/v<=2.1", 6.65 },
{ "CLBND|SL:NR2R:0/6/53/v<=2.6", 6.94 },
{ "CLBND|SL:NR2R:0/6/53/v<=2.95", 8.39 },
{ "CLBND|SL:NR2R:0/6/53/v<=3.1", 17.4 },
{ "CLBND|SL:NR2R:0/6/53/v<=3.141", 27.5 },
{ "CLBND|SL:NR2R:0/6/53/v>3.141", 36 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=0.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=0.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1.3", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1.64", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1.8", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=1e-06", 6.96 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=2.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=2.6", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=2.95", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=3.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t<=3.141", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/t>3.141", 33.3 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=0.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=0.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1.3", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1.64", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1.8", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=1e-06", 6.96 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=2.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=2.6", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=2.95", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/u<=3.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=0.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=0.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1.3", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1.5", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1.64", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1.8", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=1e-06", 6.96 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=2.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=2.6", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=2.95", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=3.1", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v<=3.141", 6 },
{ "CLBND|SL:NR2R:0/7-29/53/v>3.141", 33.3 },
{ "CLDUP|CL:NR2R:0/1/53", 6.93 },
{ "CLDUP|CL:NR2R:0/2/53", 13.3 },
{ "CLDUP|CL:NR2R:0/200+/53", 6.95 },
{ "CLDUP|CL:NR2R:0/3/53", 13.7 },
{ "CLDUP|CL:NR2R:0/30-199/53", 7 },
{ "CLDUP|CL:NR2R:0/4/53", 14.7 },
{ "CLDUP|CL:NR2R:0/5/53", 15 },
{ "CLDUP|CL:NR2R:0/6/53", 14.3 },
{ "CLDUP|CL:NR2R:0/7-29/53", 123 },
{ "CLDUP|CL:R2R:1//53", 6.93 },
{ "CLDUP|CL:R2R:2//53", 7.27 },
{ "CLDUP|CL:R2R:2//64", 7.58 },
{ "CLDUP|CL:R2R:3//53", 7.69 },
{ "CLDUP|CL:R2R:3//64", 99.1 },
{ "CLDUP|CL:R2R:4//53", 8.75 },
{ "CLDUP|CL:R2R:4//64", 35.6 },
{ "CLDUP|CL:R2R:5//53", 9.03 },
{ "CLDUP|CL:R2R:5//64", 86.8 },
{ "CLDUP|CL:R2R:6//53", 8.27 },
{ "CLDUP|CL:R2R:6//64", 462 },
{ "CLDUP|SL:NR2R:0/1/53", 6.56 },
{ "CLDUP|SL:NR2R:0/2/53", 13.2 },
{ "CLDUP|SL:NR2R:0/200+/53", 6.74 },
{ "CLDUP|SL:NR2R:0/3/53", 9.23 },
{ "CLDUP|SL:NR2R:0/30-199/53", 7 },
{ "CLDUP|SL:NR2R:0/4/53", 33.3 },
{ "CLDUP|SL:NR2R:0/5/53", 18.5 },
{ "CLDUP|SL:NR2R:0/6/53", 16.4 },
{ "CLDUP|SL:NR2R:0/7-29/53", 20.9 },
{ "CLLI|CL:NR2R:0/2/53", 7.75 },
{ "CLLI|CL:NR2R:0/200+/53", 8.02 },
{ "CLLI|CL:NR2R:0/3/53", 13 },
{ "CLLI|CL:NR2R:0/30-199/53", 9.02 },
{ "CLLI|CL:NR2R:0/4/53", 11.5 },
{ "CLLI|CL:NR2R:0/5/53", 7.96 },
{ "CLLI|CL:NR2R:0/6/53", 7.77 },
{ "CLLI|CL:NR2R:0/7-29/53", 50.8 },
{ "CLLI|CL:R2R:2//53", 7.75 },
{ "CLLI|CL:R2R:2//64", 12.8 },
{ "CLLI|CL:R2R:3//53", 10.8 },
{ "CLLI|CL:R2R:3//64", 66 },
{ "CLLI|CL:R2R:4//53", 9.84 },
{ "CLLI|CL:R2R:4//64", 23.9 },
{ "CLLI|CL:R2R:5//53", 7.96 },
{ "CLLI|CL:R2R:5//64", 94.8 },
{ "CLLI|CL:R2R:6//53", 7.77 },
{ "CLLI|CL:R2R:6//64", 219 },
{ "CLLI|SL:NR2R:0/2/53", 8.08 },
{ "CLLI|SL:NR2R:0/200+/53", 8.66 },
{ "CLLI|SL:NR2R:0/3/53", 20.5 },
{ "CLLI|SL:NR2R:0/30-199/53", 14.3 },
{ "CLLI|SL:NR2R:0/4/53", 21.2 },
{ "CLLI|SL:NR2R:0/5/53", 8.94 },
{ "CLLI|SL:NR2R:0/6/53", 8.95 },
{ "CLLI|SL:NR2R:0/7-29/53", 19.1 },
{ "CONJ|LI:C2C:2//24", 2 },
{ "CONJ|LI:C2C:2//53", 2 },
{ "CONJ|LI:C2C:3//53", 2 },
{ "CONJ|LI:C2C:4//53", 2 },
{ "CONJ|LI:C2C:5//53", 2 },
{ "CONJ|LI:C2C:6//53", 2 },
{ "CONJ|LI:NC2C:0/-1/53", 348 },
{ "CONJ|LI:NC2C:0/0/53", 2 },
{ "CONJ|LI:NC2C:0/1/53", 2 },
{ "CONJ|LI:NC2C:0/2/53", 2 },
{ "CONJ|LI:NC2C:0/200+/53", 2 },
{ "CONJ|LI:NC2C:0/3/53", 2 },
{ "CONJ|LI:NC2C:0/30-199/53", 2 },
{ "CONJ|LI:NC2C:0/4/53", 2 },
{ "CONJ|LI:NC2C:0/5/53", 2 },
{ "CONJ|LI:NC2C:0/6/53", 2 },
{ "CONJ|LI:NC2C:0/7-29/53", 2 },
{ "CONT|CL:NR2R:0/1/53/t<=0.1", 12.8 },
{ "CONT|CL:NR2R:0/1/53/t<=0.5", 12.6 },
{ "CONT|CL:NR2R:0/1/53/t<=1", 12.4 },
{ "CONT|CL:NR2R:0/1/53/t<=1.3", 12.6 },
{ "CONT|CL:NR2R:0/1/53/t<=1.5", 12.7 },
{ "CONT|CL:NR2R:0/1/53/t<=1.64", 12.7 },
{ "CONT|CL:NR2R:0/1/53/t<=1.8", 12.8 },
{ "CONT|CL:NR2R:0/1/53/t<=1e-06", 13 },
{ "CONT|CL:NR2R:0/1/53/t<=2.1", 12.8 },
{ "CONT|CL:NR2R:0/1/53/t<=2.6", 12.9 },
{ "CONT|CL:NR2R:0/1/53/t<=2.95", 13.1 },
{ "CONT|CL:NR2R:0/1/53/t<=3.1", 13.2 },
{ "CONT|CL:NR2R:0/1/53/t<=3.141", 12.7 },
{ "CONT|CL:NR2R:0/1/53/t>3.141", 6 },
{ "CONT|CL:NR2R:0/1/53/u<=0.1", 12 },
{ "CONT|CL:NR2R:0/1/53/u<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/1/53/u<=1", 12.1 },
{ "CONT|CL:NR2R:0/1/53/u<=1.3", 12.2 },
{ "CONT|CL:NR2R:0/1/53/u<=1.5", 12.3 },
{ "CONT|CL:NR2R:0/1/53/u<=1.64", 12.2 },
{ "CONT|CL:NR2R:0/1/53/u<=1.8", 12.3 },
{ "CONT|CL:NR2R:0/1/53/u<=1e-06", 12 },
{ "CONT|CL:NR2R:0/1/53/u<=2.1", 12.6 },
{ "CONT|CL:NR2R:0/1/53/u<=2.6", 12.6 },
{ "CONT|CL:NR2R:0/1/53/u<=2.95", 13 },
{ "CONT|CL:NR2R:0/1/53/u<=3.1", 12.9 },
{ "CONT|CL:NR2R:0/1/53/v<=0.1", 12 },
{ "CONT|CL:NR2R:0/1/53/v<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/1/53/v<=1", 12.1 },
{ "CONT|CL:NR2R:0/1/53/v<=1.3", 12.2 },
{ "CONT|CL:NR2R:0/1/53/v<=1.5", 12.2 },
{ "CONT|CL:NR2R:0/1/53/v<=1.64", 12.2 },
{ "CONT|CL:NR2R:0/1/53/v<=1.8", 12.2 },
{ "CONT|CL:NR2R:0/1/53/v<=1e-06", 12.1 },
{ "CONT|CL:NR2R:0/1/53/v<=2.1", 12.2 },
{ "CONT|CL:NR2R:0/1/53/v<=2.6", 12.5 },
{ "CONT|CL:NR2R:0/1/53/v<=2.95", 12.6 },
{ "CONT|CL:NR2R:0/1/53/v<=3.1", 12.6 },
{ "CONT|CL:NR2R:0/1/53/v<=3.141", 12.7 },
{ "CONT|CL:NR2R:0/1/53/v>3.141", 12.7 },
{ "CONT|CL:NR2R:0/2/53/t<=0.1", 12.7 },
{ "CONT|CL:NR2R:0/2/53/t<=0.5", 13.2 },
{ "CONT|CL:NR2R:0/2/53/t<=1", 13.8 },
{ "CONT|CL:NR2R:0/2/53/t<=1.3", 13.4 },
{ "CONT|CL:NR2R:0/2/53/t<=1.5", 12.9 },
{ "CONT|CL:NR2R:0/2/53/t<=1.64", 13.1 },
{ "CONT|CL:NR2R:0/2/53/t<=1.8", 13.1 },
{ "CONT|CL:NR2R:0/2/53/t<=1e-06", 12.5 },
{ "CONT|CL:NR2R:0/2/53/t<=2.1", 13 },
{ "CONT|CL:NR2R:0/2/53/t<=2.6", 12.8 },
{ "CONT|CL:NR2R:0/2/53/t<=2.95", 12.4 },
{ "CONT|CL:NR2R:0/2/53/t<=3.1", 12.1 },
{ "CONT|CL:NR2R:0/2/53/t<=3.141", 12 },
{ "CONT|CL:NR2R:0/2/53/t>3.141", 12 },
{ "CONT|CL:NR2R:0/2/53/u<=0.1", 12 },
{ "CONT|CL:NR2R:0/2/53/u<=0.5", 12.2 },
{ "CONT|CL:NR2R:0/2/53/u<=1", 13.4 },
{ "CONT|CL:NR2R:0/2/53/u<=1.3", 13.3 },
{ "CONT|CL:NR2R:0/2/53/u<=1.5", 12.7 },
{ "CONT|CL:NR2R:0/2/53/u<=1.64", 12.7 },
{ "CONT|CL:NR2R:0/2/53/u<=1.8", 12.7 },
{ "CONT|CL:NR2R:0/2/53/u<=1e-06", 12.2 },
{ "CONT|CL:NR2R:0/2/53/u<=2.1", 12.7 },
{ "CONT|CL:NR2R:0/2/53/u<=2.6", 12.5 },
{ "CONT|CL:NR2R:0/2/53/u<=2.95", 12.3 },
{ "CONT|CL:NR2R:0/2/53/u<=3.1", 12.2 },
{ "CONT|CL:NR2R:0/2/53/v<=0.1", 12 },
{ "CONT|CL:NR2R:0/2/53/v<=0.5", 12.2 },
{ "CONT|CL:NR2R:0/2/53/v<=1", 13.3 },
{ "CONT|CL:NR2R:0/2/53/v<=1.3", 13 },
{ "CONT|CL:NR2R:0/2/53/v<=1.5", 12.4 },
{ "CONT|CL:NR2R:0/2/53/v<=1.64", 12.4 },
{ "CONT|CL:NR2R:0/2/53/v<=1.8", 12.4 },
{ "CONT|CL:NR2R:0/2/53/v<=1e-06", 12.1 },
{ "CONT|CL:NR2R:0/2/53/v<=2.1", 12.3 },
{ "CONT|CL:NR2R:0/2/53/v<=2.6", 12.3 },
{ "CONT|CL:NR2R:0/2/53/v<=2.95", 12.2 },
{ "CONT|CL:NR2R:0/2/53/v<=3.1", 12 },
{ "CONT|CL:NR2R:0/2/53/v<=3.141", 12 },
{ "CONT|CL:NR2R:0/2/53/v>3.141", 12 },
{ "CONT|CL:NR2R:0/200+/53/t<=0.1", 6.5 },
{ "CONT|CL:NR2R:0/200+/53/t<=0.5", 6.49 },
{ "CONT|CL:NR2R:0/200+/53/t<=1", 6.38 },
{ "CONT|CL:NR2R:0/200+/53/t<=1.3", 6.35 },
{ "CONT|CL:NR2R:0/200+/53/t<=1.5", 6.39 },
{ "CONT|CL:NR2R:0/200+/53/t<=1.64", 6.49 },
{ "CONT|CL:NR2R:0/200+/53/t<=1.8", 6.39 },
{ "CONT|CL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "CONT|CL:NR2R:0/200+/53/t<=2.1", 6.29 },
{ "CONT|CL:NR2R:0/200+/53/t<=2.6", 6.25 },
{ "CONT|CL:NR2R:0/200+/53/t<=2.95", 6.29 },
{ "CONT|CL:NR2R:0/200+/53/t<=3.1", 6.37 },
{ "CONT|CL:NR2R:0/200+/53/t<=3.141", 12.5 },
{ "CONT|CL:NR2R:0/200+/53/t>3.141", 6.18 },
{ "CONT|CL:NR2R:0/200+/53/u<=0.1", 12.5 },
{ "CONT|CL:NR2R:0/200+/53/u<=0.5", 6.26 },
{ "CONT|CL:NR2R:0/200+/53/u<=1", 6.13 },
{ "CONT|CL:NR2R:0/200+/53/u<=1.3", 6.18 },
{ "CONT|CL:NR2R:0/200+/53/u<=1.5", 12.3 },
{ "CONT|CL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "CONT|CL:NR2R:0/200+/53/u<=1.8", 12.3 },
{ "CONT|CL:NR2R:0/200+/53/u<=1e-06", 6.18 },
{ "CONT|CL:NR2R:0/200+/53/u<=2.1", 6.22 },
{ "CONT|CL:NR2R:0/200+/53/u<=2.6", 6.17 },
{ "CONT|CL:NR2R:0/200+/53/u<=2.95", 6.26 },
{ "CONT|CL:NR2R:0/200+/53/u<=3.1", 12.4 },
{ "CONT|CL:NR2R:0/200+/53/v<=0.1", 6.5 },
{ "CONT|CL:NR2R:0/200+/53/v<=0.5", 6.29 },
{ "CONT|CL:NR2R:0/200+/53/v<=1", 6.2 },
{ "CONT|CL:NR2R:0/200+/53/v<=1.3", 6.22 },
{ "CONT|CL:NR2R:0/200+/53/v<=1.5", 6.22 },
{ "CONT|CL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "CONT|CL:NR2R:0/200+/53/v<=1.8", 6.2 },
{ "CONT|CL:NR2R:0/200+/53/v<=1e-06", 6.09 },
{ "CONT|CL:NR2R:0/200+/53/v<=2.1", 6.15 },
{ "CONT|CL:NR2R:0/200+/53/v<=2.6", 6.08 },
{ "CONT|CL:NR2R:0/200+/53/v<=2.95", 6.31 },
{ "CONT|CL:NR2R:0/200+/53/v<=3.1", 6.26 },
{ "CONT|CL:NR2R:0/200+/53/v<=3.141", 12.4 },
{ "CONT|CL:NR2R:0/200+/53/v>3.141", 6.5 },
{ "CONT|CL:NR2R:0/3/53/t<=0.1", 12.8 },
{ "CONT|CL:NR2R:0/3/53/t<=0.5", 12.8 },
{ "CONT|CL:NR2R:0/3/53/t<=1", 12.8 },
{ "CONT|CL:NR2R:0/3/53/t<=1.3", 13.4 },
{ "CONT|CL:NR2R:0/3/53/t<=1.5", 14.2 },
{ "CONT|CL:NR2R:0/3/53/t<=1.64", 14.2 },
{ "CONT|CL:NR2R:0/3/53/t<=1.8", 12.5 },
{ "CONT|CL:NR2R:0/3/53/t<=1e-06", 6 },
{ "CONT|CL:NR2R:0/3/53/t<=2.1", 12.6 },
{ "CONT|CL:NR2R:0/3/53/t<=2.6", 12.8 },
{ "CONT|CL:NR2R:0/3/53/t<=2.95", 13.3 },
{ "CONT|CL:NR2R:0/3/53/t<=3.1", 13.9 },
{ "CONT|CL:NR2R:0/3/53/t<=3.141", 14 },
{ "CONT|CL:NR2R:0/3/53/t>3.141", 8.63 },
{ "CONT|CL:NR2R:0/3/53/u<=0.1", 12.8 },
{ "CONT|CL:NR2R:0/3/53/u<=0.5", 12.3 },
{ "CONT|CL:NR2R:0/3/53/u<=1", 12.2 },
{ "CONT|CL:NR2R:0/3/53/u<=1.3", 12.4 },
{ "CONT|CL:NR2R:0/3/53/u<=1.5", 12.6 },
{ "CONT|CL:NR2R:0/3/53/u<=1.64", 12.8 },
{ "CONT|CL:NR2R:0/3/53/u<=1.8", 12.2 },
{ "CONT|CL:NR2R:0/3/53/u<=1e-06", 6 },
{ "CONT|CL:NR2R:0/3/53/u<=2.1", 12.4 },
{ "CONT|CL:NR2R:0/3/53/u<=2.6", 12.6 },
{ "CONT|CL:NR2R:0/3/53/u<=2.95", 13.3 },
{ "CONT|CL:NR2R:0/3/53/u<=3.1", 13.7 },
{ "CONT|CL:NR2R:0/3/53/v<=0.1", 12.8 },
{ "CONT|CL:NR2R:0/3/53/v<=0.5", 12.3 },
{ "CONT|CL:NR2R:0/3/53/v<=1", 12.2 },
{ "CONT|CL:NR2R:0/3/53/v<=1.3", 12.3 },
{ "CONT|CL:NR2R:0/3/53/v<=1.5", 12.3 },
{ "CONT|CL:NR2R:0/3/53/v<=1.64", 12.5 },
{ "CONT|CL:NR2R:0/3/53/v<=1.8", 12.1 },
{ "CONT|CL:NR2R:0/3/53/v<=1e-06", 12.8 },
{ "CONT|CL:NR2R:0/3/53/v<=2.1", 12.3 },
{ "CONT|CL:NR2R:0/3/53/v<=2.6", 12.3 },
{ "CONT|CL:NR2R:0/3/53/v<=2.95", 12.6 },
{ "CONT|CL:NR2R:0/3/53/v<=3.1", 13.2 },
{ "CONT|CL:NR2R:0/3/53/v<=3.141", 13.7 },
{ "CONT|CL:NR2R:0/3/53/v>3.141", 13.9 },
{ "CONT|CL:NR2R:0/30-199/53/t<=0.1", 6.5 },
{ "CONT|CL:NR2R:0/30-199/53/t<=0.5", 6.49 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1", 6.51 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1.3", 6.36 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1.5", 6.4 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1.64", 6.5 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1.8", 6.39 },
{ "CONT|CL:NR2R:0/30-199/53/t<=1e-06", 6 },
{ "CONT|CL:NR2R:0/30-199/53/t<=2.1", 6.3 },
{ "CONT|CL:NR2R:0/30-199/53/t<=2.6", 6.25 },
{ "CONT|CL:NR2R:0/30-199/53/t<=2.95", 6.29 },
{ "CONT|CL:NR2R:0/30-199/53/t<=3.1", 6.37 },
{ "CONT|CL:NR2R:0/30-199/53/t<=3.141", 12.5 },
{ "CONT|CL:NR2R:0/30-199/53/t>3.141", 6.18 },
{ "CONT|CL:NR2R:0/30-199/53/u<=0.1", 12.5 },
{ "CONT|CL:NR2R:0/30-199/53/u<=0.5", 6.26 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1", 6.12 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1.3", 6.19 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1.5", 12.3 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1.64", 6.48 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1.8", 12.3 },
{ "CONT|CL:NR2R:0/30-199/53/u<=1e-06", 6.18 },
{ "CONT|CL:NR2R:0/30-199/53/u<=2.1", 6.21 },
{ "CONT|CL:NR2R:0/30-199/53/u<=2.6", 6.22 },
{ "CONT|CL:NR2R:0/30-199/53/u<=2.95", 6.25 },
{ "CONT|CL:NR2R:0/30-199/53/u<=3.1", 12.3 },
{ "CONT|CL:NR2R:0/30-199/53/v<=0.1", 6.5 },
{ "CONT|CL:NR2R:0/30-199/53/v<=0.5", 6.3 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1", 6.27 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1.3", 6.29 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1.5", 6.21 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1.64", 6.5 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1.8", 6.21 },
{ "CONT|CL:NR2R:0/30-199/53/v<=1e-06", 6.09 },
{ "CONT|CL:NR2R:0/30-199/53/v<=2.1", 6.14 },
{ "CONT|CL:NR2R:0/30-199/53/v<=2.6", 6.08 },
{ "CONT|CL:NR2R:0/30-199/53/v<=2.95", 6.16 },
{ "CONT|CL:NR2R:0/30-199/53/v<=3.1", 12.3 },
{ "CONT|CL:NR2R:0/30-199/53/v<=3.141", 12.5 },
{ "CONT|CL:NR2R:0/30-199/53/v>3.141", 6.49 },
{ "CONT|CL:NR2R:0/4/53/t<=0.1", 12.3 },
{ "CONT|CL:NR2R:0/4/53/t<=0.5", 12.8 },
{ "CONT|CL:NR2R:0/4/53/t<=1", 12.9 },
{ "CONT|CL:NR2R:0/4/53/t<=1.3", 13.3 },
{ "CONT|CL:NR2R:0/4/53/t<=1.5", 14.4 },
{ "CONT|CL:NR2R:0/4/53/t<=1.64", 14.2 },
{ "CONT|CL:NR2R:0/4/53/t<=1.8", 13.8 },
{ "CONT|CL:NR2R:0/4/53/t<=1e-06", 12.3 },
{ "CONT|CL:NR2R:0/4/53/t<=2.1", 13.3 },
{ "CONT|CL:NR2R:0/4/53/t<=2.6", 12.8 },
{ "CONT|CL:NR2R:0/4/53/t<=2.95", 12.5 },
{ "CONT|CL:NR2R:0/4/53/t<=3.1", 12.1 },
{ "CONT|CL:NR2R:0/4/53/t<=3.141", 12 },
{ "CONT|CL:NR2R:0/4/53/t>3.141", 12 },
{ "CONT|CL:NR2R:0/4/53/u<=0.1", 12 },
{ "CONT|CL:NR2R:0/4/53/u<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/4/53/u<=1", 12.3 },
{ "CONT|CL:NR2R:0/4/53/u<=1.3", 12.9 },
{ "CONT|CL:NR2R:0/4/53/u<=1.5", 13.9 },
{ "CONT|CL:NR2R:0/4/53/u<=1.64", 13.8 },
{ "CONT|CL:NR2R:0/4/53/u<=1.8", 13.3 },
{ "CONT|CL:NR2R:0/4/53/u<=1e-06", 12.2 },
{ "CONT|CL:NR2R:0/4/53/u<=2.1", 12.7 },
{ "CONT|CL:NR2R:0/4/53/u<=2.6", 12.7 },
{ "CONT|CL:NR2R:0/4/53/u<=2.95", 12.3 },
{ "CONT|CL:NR2R:0/4/53/u<=3.1", 12.1 },
{ "CONT|CL:NR2R:0/4/53/v<=0.1", 12 },
{ "CONT|CL:NR2R:0/4/53/v<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/4/53/v<=1", 12.3 },
{ "CONT|CL:NR2R:0/4/53/v<=1.3", 12.5 },
{ "CONT|CL:NR2R:0/4/53/v<=1.5", 14 },
{ "CONT|CL:NR2R:0/4/53/v<=1.64", 13.5 },
{ "CONT|CL:NR2R:0/4/53/v<=1.8", 12.9 },
{ "CONT|CL:NR2R:0/4/53/v<=1e-06", 12.1 },
{ "CONT|CL:NR2R:0/4/53/v<=2.1", 12.4 },
{ "CONT|CL:NR2R:0/4/53/v<=2.6", 12.3 },
{ "CONT|CL:NR2R:0/4/53/v<=2.95", 12.1 },
{ "CONT|CL:NR2R:0/4/53/v<=3.1", 12 },
{ "CONT|CL:NR2R:0/4/53/v<=3.141", 12 },
{ "CONT|CL:NR2R:0/4/53/v>3.141", 12 },
{ "CONT|CL:NR2R:0/5/53/t<=0.1", 13 },
{ "CONT|CL:NR2R:0/5/53/t<=0.5", 13 },
{ "CONT|CL:NR2R:0/5/53/t<=1", 13 },
{ "CONT|CL:NR2R:0/5/53/t<=1.3", 12.9 },
{ "CONT|CL:NR2R:0/5/53/t<=1.5", 13.1 },
{ "CONT|CL:NR2R:0/5/53/t<=1.64", 13 },
{ "CONT|CL:NR2R:0/5/53/t<=1.8", 12.5 },
{ "CONT|CL:NR2R:0/5/53/t<=1e-06", 6 },
{ "CONT|CL:NR2R:0/5/53/t<=2.1", 12.6 },
{ "CONT|CL:NR2R:0/5/53/t<=2.6", 12.9 },
{ "CONT|CL:NR2R:0/5/53/t<=2.95", 13.3 },
{ "CONT|CL:NR2R:0/5/53/t<=3.1", 13.7 },
{ "CONT|CL:NR2R:0/5/53/t<=3.141", 13 },
{ "CONT|CL:NR2R:0/5/53/t>3.141", 8 },
{ "CONT|CL:NR2R:0/5/53/u<=0.1", 12.9 },
{ "CONT|CL:NR2R:0/5/53/u<=0.5", 12.6 },
{ "CONT|CL:NR2R:0/5/53/u<=1", 12.3 },
{ "CONT|CL:NR2R:0/5/53/u<=1.3", 12.3 },
{ "CONT|CL:NR2R:0/5/53/u<=1.5", 12.3 },
{ "CONT|CL:NR2R:0/5/53/u<=1.64", 12.3 },
{ "CONT|CL:NR2R:0/5/53/u<=1.8", 12.2 },
{ "CONT|CL:NR2R:0/5/53/u<=1e-06", 6 },
{ "CONT|CL:NR2R:0/5/53/u<=2.1", 12.2 },
{ "CONT|CL:NR2R:0/5/53/u<=2.6", 12.5 },
{ "CONT|CL:NR2R:0/5/53/u<=2.95", 13 },
{ "CONT|CL:NR2R:0/5/53/u<=3.1", 13.2 },
{ "CONT|CL:NR2R:0/5/53/v<=0.1", 13 },
{ "CONT|CL:NR2R:0/5/53/v<=0.5", 12.4 },
{ "CONT|CL:NR2R:0/5/53/v<=1", 12.2 },
{ "CONT|CL:NR2R:0/5/53/v<=1.3", 12.2 },
{ "CONT|CL:NR2R:0/5/53/v<=1.5", 12.4 },
{ "CONT|CL:NR2R:0/5/53/v<=1.64", 12.2 },
{ "CONT|CL:NR2R:0/5/53/v<=1.8", 12.3 },
{ "CONT|CL:NR2R:0/5/53/v<=1e-06", 6 },
{ "CONT|CL:NR2R:0/5/53/v<=2.1", 12.3 },
{ "CONT|CL:NR2R:0/5/53/v<=2.6", 12.2 },
{ "CONT|CL:NR2R:0/5/53/v<=2.95", 12.6 },
{ "CONT|CL:NR2R:0/5/53/v<=3.1", 12.8 },
{ "CONT|CL:NR2R:0/5/53/v<=3.141", 13 },
{ "CONT|CL:NR2R:0/5/53/v>3.141", 13.3 },
{ "CONT|CL:NR2R:0/6/53/t<=0.1", 12.5 },
{ "CONT|CL:NR2R:0/6/53/t<=0.5", 12.8 },
{ "CONT|CL:NR2R:0/6/53/t<=1", 12.9 },
{ "CONT|CL:NR2R:0/6/53/t<=1.3", 13.3 },
{ "CONT|CL:NR2R:0/6/53/t<=1.5", 14.1 },
{ "CONT|CL:NR2R:0/6/53/t<=1.64", 14.3 },
{ "CONT|CL:NR2R:0/6/53/t<=1.8", 13.7 },
{ "CONT|CL:NR2R:0/6/53/t<=1e-06", 12.5 },
{ "CONT|CL:NR2R:0/6/53/t<=2.1", 13 },
{ "CONT|CL:NR2R:0/6/53/t<=2.6", 13.2 },
{ "CONT|CL:NR2R:0/6/53/t<=2.95", 12.4 },
{ "CONT|CL:NR2R:0/6/53/t<=3.1", 12.2 },
{ "CONT|CL:NR2R:0/6/53/t<=3.141", 12 },
{ "CONT|CL:NR2R:0/6/53/t>3.141", 12 },
{ "CONT|CL:NR2R:0/6/53/u<=0.1", 12 },
{ "CONT|CL:NR2R:0/6/53/u<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/6/53/u<=1", 12.4 },
{ "CONT|CL:NR2R:0/6/53/u<=1.3", 12.7 },
{ "CONT|CL:NR2R:0/6/53/u<=1.5", 13.9 },
{ "CONT|CL:NR2R:0/6/53/u<=1.64", 14.3 },
{ "CONT|CL:NR2R:0/6/53/u<=1.8", 13.1 },
{ "CONT|CL:NR2R:0/6/53/u<=1e-06", 12.2 },
{ "CONT|CL:NR2R:0/6/53/u<=2.1", 12.8 },
{ "CONT|CL:NR2R:0/6/53/u<=2.6", 12.4 },
{ "CONT|CL:NR2R:0/6/53/u<=2.95", 12.2 },
{ "CONT|CL:NR2R:0/6/53/u<=3.1", 12.1 },
{ "CONT|CL:NR2R:0/6/53/v<=0.1", 12 },
{ "CONT|CL:NR2R:0/6/53/v<=0.5", 12.1 },
{ "CONT|CL:NR2R:0/6/53/v<=1", 12.3 },
{ "CONT|CL:NR2R:0/6/53/v<=1.3", 12.4 },
{ "CONT|CL:NR2R:0/6/53/v<=1.5", 13.2 },
{ "CONT|CL:NR2R:0/6/53/v<=1.64", 13.9 },
{ "CONT|CL:NR2R:0/6/53/v<=1.8", 13.2 },
{ "CONT|CL:NR2R:0/6/53/v<=1e-06", 12.1 },
{ "CONT|CL:NR2R:0/6/53/v<=2.1", 12.5 },
{ "CONT|CL:NR2R:0/6/53/v<=2.6", 12.3 },
{ "CONT|CL:NR2R:0/6/53/v<=2.95", 12.1 },
{ "CONT|CL:NR2R:0/6/53/v<=3.1", 12 },
{ "CONT|CL:NR2R:0/6/53/v<=3.141", 12 },
{ "CONT|CL:NR2R:0/6/53/v>3.141", 12 },
{ "CONT|CL:NR2R:0/7-29/53/t<=0.1", 6.98 },
{ "CONT|CL:NR2R:0/7-29/53/t<=0.5", 6.98 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1", 6.79 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1.3", 6.92 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1.5", 7.46 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1.64", 7.96 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1.8", 7.75 },
{ "CONT|CL:NR2R:0/7-29/53/t<=1e-06", 6.5 },
{ "CONT|CL:NR2R:0/7-29/53/t<=2.1", 7.43 },
{ "CONT|CL:NR2R:0/7-29/53/t<=2.6", 10.7 },
{ "CONT|CL:NR2R:0/7-29/53/t<=2.95", 36.7 },
{ "CONT|CL:NR2R:0/7-29/53/t<=3.1", 49.7 },
{ "CONT|CL:NR2R:0/7-29/53/t<=3.141", 94.1 },
{ "CONT|CL:NR2R:0/7-29/53/t>3.141", 87.7 },
{ "CONT|CL:NR2R:0/7-29/53/u<=0.1", 6.97 },
{ "CONT|CL:NR2R:0/7-29/53/u<=0.5", 6.36 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1", 6.23 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1.3", 6.42 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1.5", 7.34 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1.64", 7.93 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1.8", 7.03 },
{ "CONT|CL:NR2R:0/7-29/53/u<=1e-06", 6.18 },
{ "CONT|CL:NR2R:0/7-29/53/u<=2.1", 6.93 },
{ "CONT|CL:NR2R:0/7-29/53/u<=2.6", 8.73 },
{ "CONT|CL:NR2R:0/7-29/53/u<=2.95", 22.9 },
{ "CONT|CL:NR2R:0/7-29/53/u<=3.1", 54.4 },
{ "CONT|CL:NR2R:0/7-29/53/v<=0.1", 7 },
{ "CONT|CL:NR2R:0/7-29/53/v<=0.5", 6.44 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1", 6.24 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1.3", 6.29 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1.5", 6.77 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1.64", 7.8 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1.8", 6.68 },
{ "CONT|CL:NR2R:0/7-29/53/v<=1e-06", 6.09 },
{ "CONT|CL:NR2R:0/7-29/53/v<=2.1", 6.68 },
{ "CONT|CL:NR2R:0/7-29/53/v<=2.6", 6.9 },
{ "CONT|CL:NR2R:0/7-29/53/v<=2.95", 14.4 },
{ "CONT|CL:NR2R:0/7-29/53/v<=3.1", 35.4 },
{ "CONT|CL:NR2R:0/7-29/53/v<=3.141", 70.3 },
{ "CONT|CL:NR2R:0/7-29/53/v>3.141", 95.2 },
{ "CONT|CL:R2R:1//53/t<=0.1", 6.8 },
{ "CONT|CL:R2R:1//53/t<=0.5", 6.6 },
{ "CONT|CL:R2R:1//53/t<=1", 6.41 },
{ "CONT|CL:R2R:1//53/t<=1.3", 6.59 },
{ "CONT|CL:R2R:1//53/t<=1.5", 6.73 },
{ "CONT|CL:R2R:1//53/t<=1.64", 6.74 },
{ "CONT|CL:R2R:1//53/t<=1.8", 6.75 },
{ "CONT|CL:R2R:1//53/t<=1e-06", 6.96 },
{ "CONT|CL:R2R:1//53/t<=2.1", 6.79 },
{ "CONT|CL:R2R:1//53/t<=2.6", 6.86 },
{ "CONT|CL:R2R:1//53/t<=2.95", 7.05 },
{ "CONT|CL:R2R:1//53/t<=3.1", 7.2 },
{ "CONT|CL:R2R:1//53/t<=3.141", 12.7 },
{ "CONT|CL:R2R:1//53/t>3.141", 6 },
{ "CONT|CL:R2R:1//53/u<=0.1", 6.03 },
{ "CONT|CL:R2R:1//53/u<=0.5", 6.08 },
{ "CONT|CL:R2R:1//53/u<=1", 6.11 },
{ "CONT|CL:R2R:1//53/u<=1.3", 6.23 },
{ "CONT|CL:R2R:1//53/u<=1.5", 12.3 },
{ "CONT|CL:R2R:1//53/u<=1.64", 6.24 },
{ "CONT|CL:R2R:1//53/u<=1.8", 12.3 },
{ "CONT|CL:R2R:1//53/u<=1e-06", 6 },
{ "CONT|CL:R2R:1//53/u<=2.1", 6.56 },
{ "CONT|CL:R2R:1//53/u<=2.6", 6.65 },
{ "CONT|CL:R2R:1//53/u<=2.95", 7.02 },
{ "CONT|CL:R2R:1//53/u<=3.1", 12.9 },
{ "CONT|CL:R2R:1//53/v<=0.1", 6.04 },
{ "CONT|CL:R2R:1//53/v<=0.5", 6.1 },
{ "CONT|CL:R2R:1//53/v<=1", 6.14 },
{ "CONT|CL:R2R:1//53/v<=1.3", 6.15 },
{ "CONT|CL:R2R:1//53/v<=1.5", 6.19 },
{ "CONT|CL:R2R:1//53/v<=1.64", 6.16 },
{ "CONT|CL:R2R:1//53/v<=1.8", 6.21 },
{ "CONT|CL:R2R:1//53/v<=1e-06", 6.13 },
{ "CONT|CL:R2R:1//53/v<=2.1", 6.23 },
{ "CONT|CL:R2R:1//53/v<=2.6", 6.45 },
{ "CONT|CL:R2R:1//53/v<=2.95", 6.62 },
{ "CONT|CL:R2R:1//53/v<=3.1", 6.59 },
{ "CONT|CL:R2R:1//53/v<=3.141", 12.7 },
{ "CONT|CL:R2R:1//53/v>3.141", 6.71 },
{ "CONT|CL:R2R:2//53/t<=0.1", 6.7 },
{ "CONT|CL:R2R:2//53/t<=0.5", 7.2 },
{ "CONT|CL:R2R:2//53/t<=1", 7.81 },
{ "CONT|CL:R2R:2//53/t<=1.3", 7.41 },
{ "CONT|CL:R2R:2//53/t<=1.5", 6.95 },
{ "CONT|CL:R2R:2//53/t<=1.64", 7.13 },
{ "CONT|CL:R2R:2//53/t<=1.8", 7.08 },
{ "CONT|CL:R2R:2//53/t<=1e-06", 6.48 },
{ "CONT|CL:R2R:2//53/t<=2.1", 6.96 },
{ "CONT|CL:R2R:2//53/t<=2.6", 6.82 },
{ "CONT|CL:R2R:2//53/t<=2.95", 6.38 },
{ "CONT|CL:R2R:2//53/t<=3.1", 6.11 },
{ "CONT|CL:R2R:2//53/t<=3.141", 6.02 },
{ "CONT|CL:R2R:2//53/t>3.141", 6 },
{ "CONT|CL:R2R:2//53/u<=0.1", 6.02 },
{ "CONT|CL:R2R:2//53/u<=0.5", 6.21 },
{ "CONT|CL:R2R:2//53/u<=1", 7.38 },
{ "CONT|CL:R2R:2//53/u<=1.3", 7.29 },
{ "CONT|CL:R2R:2//53/u<=1.5", 6.68 },
{ "CONT|CL:R2R:2//53/u<=1.64", 6.72 },
{ "CONT|CL:R2R:2//53/u<=1.8", 6.7 },
{ "CONT|CL:R2R:2//53/u<=1e-06", 6.18 },
{ "CONT|CL:R2R:2//53/u<=2.1", 6.69 },
{ "CONT|CL:R2R:2//53/u<=2.6", 6.55 },
{ "CONT|CL:R2R:2//53/u<=2.95", 6.28 },
{ "CONT|CL:R2R:2//53/u<=3.1", 12.2 },
{ "CONT|CL:R2R:2//53/v<=0.1", 6.02 },
{ "CONT|CL:R2R:2//53/v<=0.5", 6.16 },
{ "CONT|CL:R2R:2//53/v<=1", 7.34 },
{ "CONT|CL:R2R:2//53/v<=1.3", 6.99 },
{ "CONT|CL:R2R:2//53/v<=1.5", 6.41 },
{ "CONT|CL:R2R:2//53/v<=1.64", 6.41 },
{ "CONT|CL:R2R:2//53/v<=1.8", 6.37 },
{ "CONT|CL:R2R:2//53/v<=1e-06", 6.1 },
{ "CONT|CL:R2R:2//53/v<=2.1", 6.3 },
{ "CONT|CL:R2R:2//53/v<=2.6", 6.29 },
{ "CONT|CL:R2R:2//53/v<=2.95", 6.16 },
{ "CONT|CL:R2R:2//53/v<=3.1", 6.03 },
{ "CONT|CL:R2R:2//53/v<=3.141", 6.01 },
{ "CONT|CL:R2R:2//53/v>3.141", 6 },
{ "CONT|CL:R2R:2//64/t<=0.1", 6.7 },
{ "CONT|CL:R2R:2//64/t<=0.5", 7.11 },
{ "CONT|CL:R2R:2//64/t<=1", 7.83 },
{ "CONT|CL:R2R:2//64/t<=1.3", 7.41 },
{ "CONT|CL:R2R:2//64/t<=1.5", 6.92 },
{ "CONT|CL:R2R:2//64/t<=1.64", 8.49 },
{ "CONT|CL:R2R:2//64/t<=1.8", 7.88 },
{ "CONT|CL:R2R:2//64/t<=1e-06", 6.51 },
{ "CONT|CL:R2R:2//64/t<=2.1", 7.06 },
{ "CONT|CL:R2R:2//64/t<=2.6", 6.76 },
{ "CONT|CL:R2R:2//64/t<=2.95", 6.39 },
{ "CONT|CL:R2R:2//64/t<=3.1", 6.11 },
{ "CONT|CL:R2R:2//64/t<=3.141", 12 },
{ "CONT|CL:R2R:2//64/t>3.141", 6 },
{ "CONT|CL:R2R:2//64/u<=0.1", 12 },
{ "CONT|CL:R2R:2//64/u<=0.5", 6.2 },
{ "CONT|CL:R2R:2//64/u<=1", 7.48 },
{ "CONT|CL:R2R:2//64/u<=1.3", 7.37 },
{ "CONT|CL:R2R:2//64/u<=1.5", 12.6 },
{ "CONT|CL:R2R:2//64/u<=1.64", 7.12 },
{ "CONT|CL:R2R:2//64/u<=1.8", 12.9 },
{ "CONT|CL:R2R:2//64/u<=1e-06", 6.01 },
{ "CONT|CL:R2R:2//64/u<=2.1", 6.61 },
{ "CONT|CL:R2R:2//64/u<=2.6", 6.73 },
{ "CONT|CL:R2R:2//64/u<=2.95", 6.34 },
{ "CONT|CL:R2R:2//64/u<=3.1", 12.1 },
{ "CONT|CL:R2R:2//64/v<=0.1", 6.02 },
{ "CONT|CL:R2R:2//64/v<=0.5", 6.14 },
{ "CONT|CL:R2R:2//64/v<=1", 7.1 },
{ "CONT|CL:R2R:2//64/v<=1.3", 7.02 },
{ "CONT|CL:R2R:2//64/v<=1.5", 6.41 },
{ "CONT|CL:R2R:2//64/v<=1.64", 6.73 },
{ "CONT|CL:R2R:2//64/v<=1.8", 6.54 },
{ "CONT|CL:R2R:2//64/v<=1e-06", 6.02 },
{ "CONT|CL:R2R:2//64/v<=2.1", 6.38 },
{ "CONT|CL:R2R:2//64/v<=2.6", 6.2 },
{ "CONT|CL:R2R:2//64/v<=2.95", 6.12 },
{ "CONT|CL:R2R:2//64/v<=3.1", 6.06 },
{ "CONT|CL:R2R:2//64/v<=3.141", 12 },
{ "CONT|CL:R2R:2//64/v>3.141", 6 },
{ "CONT|CL:R2R:3//53/t<=0.1", 6.83 },
{ "CONT|CL:R2R:3//53/t<=0.5", 6.81 },
{ "CONT|CL:R2R:3//53/t<=1", 6.75 },
{ "CONT|CL:R2R:3//53/t<=1.3", 7.42 },
{ "CONT|CL:R2R:3//53/t<=1.5", 8.22 },
{ "CONT|CL:R2R:3//53/t<=1.64", 8.16 },
{ "CONT|CL:R2R:3//53/t<=1.8", 6.46 },
{ "CONT|CL:R2R:3//53/t<=1e-06", 6 },
{ "CONT|CL:R2R:3//53/t<=2.1", 6.59 },
{ "CONT|CL:R2R:3//53/t<=2.6", 6.83 },
{ "CONT|CL:R2R:3//53/t<=2.95", 7.28 },
{ "CONT|CL:R2R:3//53/t<=3.1", 7.91 },
{ "CONT|CL:R2R:3//53/t<=3.141", 8.6 },
{ "CONT|CL:R2R:3//53/t>3.141", 7.19 },
{ "CONT|CL:R2R:3//53/u<=0.1", 6.82 },
{ "CONT|CL:R2R:3//53/u<=0.5", 6.26 },
{ "CONT|CL:R2R:3//53/u<=1", 6.23 },
{ "CONT|CL:R2R:3//53/u<=1.3", 6.4 },
{ "CONT|CL:R2R:3//53/u<=1.5", 6.55 },
{ "CONT|CL:R2R:3//53/u<=1.64", 6.75 },
{ "CONT|CL:R2R:3//53/u<=1.8", 6.18 },
{ "CONT|CL:R2R:3//53/u<=1e-06", 6 },
{ "CONT|CL:R2R:3//53/u<=2.1", 6.39 },
{ "CONT|CL:R2R:3//53/u<=2.6", 6.58 },
{ "CONT|CL:R2R:3//53/u<=2.95", 7.27 },
{ "CONT|CL:R2R:3//53/u<=3.1", 7.73 },
{ "CONT|CL:R2R:3//53/v<=0.1", 6.81 },
{ "CONT|CL:R2R:3//53/v<=0.5", 6.29 },
{ "CONT|CL:R2R:3//53/v<=1", 6.16 },
{ "CONT|CL:R2R:3//53/v<=1.3", 6.27 },
{ "CONT|CL:R2R:3//53/v<=1.5", 6.32 },
{ "CONT|CL:R2R:3//53/v<=1.64", 6.45 },
{ "CONT|CL:R2R:3//53/v<=1.8", 6.1 },
{ "CONT|CL:R2R:3//53/v<=1e-06", 6.83 },
{ "CONT|CL:R2R:3//53/v<=2.1", 6.32 },
{ "CONT|CL:R2R:3//53/v<=2.6", 6.29 },
{ "CONT|CL:R2R:3//53/v<=2.95", 6.64 },
{ "CONT|CL:R2R:3//53/v<=3.1", 7.24 },
{ "CONT|CL:R2R:3//53/v<=3.141", 7.71 },
{ "CONT|CL:R2R:3//53/v>3.141", 7.87 },
{ "CONT|CL:R2R:3//64/t<=0.1", 6.83 },
{ "CONT|CL:R2R:3//64/t<=0.5", 6.8 },
{ "CONT|CL:R2R:3//64/t<=1", 7.07 },
{ "CONT|CL:R2R:3//64/t<=1.3", 8.1 },
{ "CONT|CL:R2R:3//64/t<=1.5", 9.47 },
{ "CONT|CL:R2R:3//64/t<=1.64", 133 },
{ "CONT|CL:R2R:3//64/t<=1.8", 45.6 },
{ "CONT|CL:R2R:3//64/t<=1e-06", 6 },
{ "CONT|CL:R2R:3//64/t<=2.1", 7.76 },
{ "CONT|CL:R2R:3//64/t<=2.6", 7.18 },
{ "CONT|CL:R2R:3//64/t<=2.95", 7.99 },
{ "CONT|CL:R2R:3//64/t<=3.1", 7.97 },
{ "CONT|CL:R2R:3//64/t<=3.141", 14 },
{ "CONT|CL:R2R:3//64/t>3.141", 7.81 },
{ "CONT|CL:R2R:3//64/u<=0.1", 12.8 },
{ "CONT|CL:R2R:3//64/u<=0.5", 6.26 },
{ "CONT|CL:R2R:3//64/u<=1", 6.25 },
{ "CONT|CL:R2R:3//64/u<=1.3", 6.41 },
{ "CONT|CL:R2R:3//64/u<=1.5", 12.8 },
{ "CONT|CL:R2R:3//64/u<=1.64", 44.8 },
{ "CONT|CL:R2R:3//64/u<=1.8", 20.7 },
{ "CONT|CL:R2R:3//64/u<=1e-06", 6 },
{ "CONT|CL:R2R:3//64/u<=2.1", 6.59 },
{ "CONT|CL:R2R:3//64/u<=2.6", 6.86 },
{ "CONT|CL:R2R:3//64/u<=2.95", 7.34 },
{ "CONT|CL:R2R:3//64/u<=3.1", 14.1 },
{ "CONT|CL:R2R:3//64/v<=0.1", 6.82 },
{ "CONT|CL:R2R:3//64/v<=0.5", 6.26 },
{ "CONT|CL:R2R:3//64/v<=1", 6.15 },
{ "CONT|CL:R2R:3//64/v<=1.3", 6.3 },
{ "CONT|CL:R2R:3//64/v<=1.5", 6.31 },
{ "CONT|CL:R2R:3//64/v<=1.64", 35.1 },
{ "CONT|CL:R2R:3//64/v<=1.8", 9.67 },
{ "CONT|CL:R2R:3//64/v<=1e-06", 6.81 },
{ "CONT|CL:R2R:3//64/v<=2.1", 6.35 },
{ "CONT|CL:R2R:3//64/v<=2.6", 6.34 },
{ "CONT|CL:R2R:3//64/v<=2.95", 7.04 },
{ "CONT|CL:R2R:3//64/v<=3.1", 7.43 },
{ "CONT|CL:R2R:3//64/v<=3.141", 14 },
{ "CONT|CL:R2R:3//64/v>3.141", 7.67 },
{ "CONT|CL:R2R:4//53/t<=0.1", 6.34 },
{ "CONT|CL:R2R:4//53/t<=0.5", 6.76 },
{ "CONT|CL:R2R:4//53/t<=1", 6.93 },
{ "CONT|CL:R2R:4//53/t<=1.3", 7.28 },
{ "CONT|CL:R2R:4//53/t<=1.5", 8.79 },
{ "CONT|CL:R2R:4//53/t<=1.64", 8.78 },
{ "CONT|CL:R2R:4//53/t<=1.8", 7.76 },
{ "CONT|CL:R2R:4//53/t<=1e-06", 6.33 },
{ "CONT|CL:R2R:4//53/t<=2.1", 7.11 },
{ "CONT|CL:R2R:4//53/t<=2.6", 6.84 },
{ "CONT|CL:R2R:4//53/t<=2.95", 6.47 },
{ "CONT|CL:R2R:4//53/t<=3.1", 6.1 },
{ "CONT|CL:R2R:4//53/t<=3.141", 6.02 },
{ "CONT|CL:R2R:4//53/t>3.141", 6 },
{ "CONT|CL:R2R:4//53/u<=0.1", 6.01 },
{ "CONT|CL:R2R:4//53/u<=0.5", 6.09 },
{ "CONT|CL:R2R:4//53/u<=1", 6.34 },
{ "CONT|CL:R2R:4//53/u<=1.3", 6.88 },
{ "CONT|CL:R2R:4//53/u<=1.5", 8.17 },
{ "CONT|CL:R2R:4//53/u<=1.64", 7.75 },
{ "CONT|CL:R2R:4//53/u<=1.8", 7.28 },
{ "CONT|CL:R2R:4//53/u<=1e-06", 6.18 },
{ "CONT|CL:R2R:4//53/u<=2.1", 6.68 },
{ "CONT|CL:R2R:4//53/u<=2.6", 6.65 },
{ "CONT|CL:R2R:4//53/u<=2.95", 6.26 },
{ "CONT|CL:R2R:4//53/u<=3.1", 6.13 },
{ "CONT|CL:R2R:4//53/v<=0.1", 6.01 },
{ "CONT|CL:R2R:4//53/v<=0.5", 6.07 },
{ "CONT|CL:R2R:4//53/v<=1", 6.27 },
{ "CONT|CL:R2R:4//53/v<=1.3", 6.54 },
{ "CONT|CL:R2R:4//53/v<=1.5", 8.47 },
{ "CONT|CL:R2R:4//53/v<=1.64", 7.51 },
{ "CONT|CL:R2R:4//53/v<=1.8", 6.94 },
{ "CONT|CL:R2R:4//53/v<=1e-06", 6.09 },
{ "CONT|CL:R2R:4//53/v<=2.1", 6.42 },
{ "CONT|CL:R2R:4//53/v<=2.6", 6.3 },
{ "CONT|CL:R2R:4//53/v<=2.95", 6.12 },
{ "CONT|CL:R2R:4//53/v<=3.1", 6.04 },
{ "CONT|CL:R2R:4//53/v<=3.141", 6.01 },
{ "CONT|CL:R2R:4//53/v>3.141", 6 },
{ "CONT|CL:R2R:4//64/t<=0.1", 6.34 },
{ "CONT|CL:R2R:4//64/t<=0.5", 6.39 },
{ "CONT|CL:R2R:4//64/t<=1", 6.73 },
{ "CONT|CL:R2R:4//64/t<=1.3", 7.55 },
{ "CONT|CL:R2R:4//64/t<=1.5", 8.69 },
{ "CONT|CL:R2R:4//64/t<=1.64", 48.5 },
{ "CONT|CL:R2R:4//64/t<=1.8", 23 },
{ "CONT|CL:R2R:4//64/t<=1e-06", 6.33 },
{ "CONT|CL:R2R:4//64/t<=2.1", 7.66 },
{ "CONT|CL:R2R:4//64/t<=2.6", 6.9 },
{ "CONT|CL:R2R:4//64/t<=2.95", 6.55 },
{ "CONT|CL:R2R:4//64/t<=3.1", 6.15 },
{ "CONT|CL:R2R:4//64/t<=3.141", 12 },
{ "CONT|CL:R2R:4//64/t>3.141", 6 },
{ "CONT|CL:R2R:4//64/u<=0.1", 12 },
{ "CONT|CL:R2R:4//64/u<=0.5", 6.1 },
{ "CONT|CL:R2R:4//64/u<=1", 6.36 },
{ "CONT|CL:R2R:4//64/u<=1.3", 6.95 },
{ "CONT|CL:R2R:4//64/u<=1.5", 14 },
{ "CONT|CL:R2R:4//64/u<=1.64", 34.7 },
{ "CONT|CL:R2R:4//64/u<=1.8", 17.4 },
{ "CONT|CL:R2R:4//64/u<=1e-06", 6 },
{ "CONT|CL:R2R:4//64/u<=2.1", 7.04 },
{ "CONT|CL:R2R:4//64/u<=2.6", 6.59 },
{ "CONT|CL:R2R:4//64/u<=2.95", 6.28 },
{ "CONT|CL:R2R:4//64/u<=3.1", 12.2 },
{ "CONT|CL:R2R:4//64/v<=0.1", 6.01 },
{ "CONT|CL:R2R:4//64/v<=0.5", 6.06 },
{ "CONT|CL:R2R:4//64/v<=1", 6.21 },
{ "CONT|CL:R2R:4//64/v<=1.3", 6.59 },
{ "CONT|CL:R2R:4//64/v<=1.5", 8.46 },
{ "CONT|CL:R2R:4//64/v<=1.64", 26.7 },
{ "CONT|CL:R2R:4//64/v<=1.8", 10.5 },
{ "CONT|CL:R2R:4//64/v<=1e-06", 6 },
{ "CONT|CL:R2R:4//64/v<=2.1", 6.96 },
{ "CONT|CL:R2R:4//64/v<=2.6", 6.34 },
{ "CONT|CL:R2R:4//64/v<=2.95", 6.13 },
{ "CONT|CL:R2R:4//64/v<=3.1", 6.07 },
{ "CONT|CL:R2R:4//64/v<=3.141", 12 },
{ "CONT|CL:R2R:4//64/v>3.141", 6 },
{ "CONT|CL:R2R:5//53/t<=0.1", 7.11 },
{ "CONT|CL:R2R:5//53/t<=0.5", 6.95 },
{ "CONT|CL:R2R:5//53/t<=1", 7.01 },
{ "CONT|CL:R2R:5//53/t<=1.3", 6.9 },
{ "CONT|CL:R2R:5//53/t<=1.5", 7.11 },
{ "CONT|CL:R2R:5//53/t<=1.64", 7.01 },
{ "CONT|CL:R2R:5//53/t<=1.8", 6.47 },
{ "CONT|CL:R2R:5//53/t<=1e-06", 6 },
{ "CONT|CL:R2R:5//53/t<=2.1", 6.62 },
{ "CONT|CL:R2R:5//53/t<=2.6", 6.88 },
{ "CONT|CL:R2R:5//53/t<=2.95", 7.27 },
{ "CONT|CL:R2R:5//53/t<=3.1", 7.71 },
{ "CONT|CL:R2R:5//53/t<=3.141", 7.91 },
{ "CONT|CL:R2R:5//53/t>3.141", 6.67 },
{ "CONT|CL:R2R:5//53/u<=0.1", 6.93 },
{ "CONT|CL:R2R:5//53/u<=0.5", 6.61 },
{ "CONT|CL:R2R:5//53/u<=1", 6.34 },
{ "CONT|CL:R2R:5//53/u<=1.3", 6.28 },
{ "CONT|CL:R2R:5//53/u<=1.5", 6.28 },
{ "CONT|CL:R2R:5//53/u<=1.64", 6.33 },
{ "CONT|CL:R2R:5//53/u<=1.8", 6.19 },
{ "CONT|CL:R2R:5//53/u<=1e-06", 6 },
{ "CONT|CL:R2R:5//53/u<=2.1", 6.21 },
{ "CONT|CL:R2R:5//53/u<=2.6", 6.54 },
{ "CONT|CL:R2R:5//53/u<=2.95", 6.96 },
{ "CONT|CL:R2R:5//53/u<=3.1", 13.2 },
{ "CONT|CL:R2R:5//53/v<=0.1", 6.96 },
{ "CONT|CL:R2R:5//53/v<=0.5", 6.36 },
{ "CONT|CL:R2R:5//53/v<=1", 6.22 },
{ "CONT|CL:R2R:5//53/v<=1.3", 6.16 },
{ "CONT|CL:R2R:5//53/v<=1.5", 6.36 },
{ "CONT|CL:R2R:5//53/v<=1.64", 6.18 },
{ "CONT|CL:R2R:5//53/v<=1.8", 6.35 },
{ "CONT|CL:R2R:5//53/v<=1e-06", 6 },
{ "CONT|CL:R2R:5//53/v<=2.1", 6.28 },
{ "CONT|CL:R2R:5//53/v<=2.6", 6.24 },
{ "CONT|CL:R2R:5//53/v<=2.95", 6.63 },
{ "CONT|CL:R2R:5//53/v<=3.1", 6.85 },
{ "CONT|CL:R2R:5//53/v<=3.141", 7.53 },
{ "CONT|CL:R2R:5//53/v>3.141", 7.5 },
{ "CONT|CL:R2R:5//64/t<=0.1", 7.67 },
{ "CONT|CL:R2R:5//64/t<=0.5", 7.5 },
{ "CONT|CL:R2R:5//64/t<=1", 7.12 },
{ "CONT|CL:R2R:5//64/t<=1.3", 6.9 },
{ "CONT|CL:R2R:5//64/t<=1.5", 6.95 },
{ "CONT|CL:R2R:5//64/t<=1.64", 203 },
{ "CONT|CL:R2R:5//64/t<=1.8", 44 },
{ "CONT|CL:R2R:5//64/t<=1e-06", 6 },
{ "CONT|CL:R2R:5//64/t<=2.1", 7.56 },
{ "CONT|CL:R2R:5//64/t<=2.6", 6.91 },
{ "CONT|CL:R2R:5//64/t<=2.95", 7.72 },
{ "CONT|CL:R2R:5//64/t<=3.1", 8 },
{ "CONT|CL:R2R:5//64/t<=3.141", 14.4 },
{ "CONT|CL:R2R:5//64/t>3.141", 7.27 },
{ "CONT|CL:R2R:5//64/u<=0.1", 13.2 },
{ "CONT|CL:R2R:5//64/u<=0.5", 6.71 },
{ "CONT|CL:R2R:5//64/u<=1", 6.35 },
{ "CONT|CL:R2R:5//64/u<=1.3", 6.26 },
{ "CONT|CL:R2R:5//64/u<=1.5", 6.33 },
{ "CONT|CL:R2R:5//64/u<=1.64", 55.7 },
{ "CONT|CL:R2R:5//64/u<=1.8", 20.1 },
{ "CONT|CL:R2R:5//64/u<=1e-06", 6 },
{ "CONT|CL:R2R:5//64/u<=2.1", 6.51 },
{ "CONT|CL:R2R:5//64/u<=2.6", 6.71 },
{ "CONT|CL:R2R:5//64/u<=2.95", 7.39 },
{ "CONT|CL:R2R:5//64/u<=3.1", 13.8 },
{ "CONT|CL:R2R:5//64/v<=0.1", 6.95 },
{ "CONT|CL:R2R:5//64/v<=0.5", 6.45 },
{ "CONT|CL:R2R:5//64/v<=1", 6.21 },
{ "CONT|CL:R2R:5//64/v<=1.3", 6.14 },
{ "CONT|CL:R2R:5//64/v<=1.5", 6.15 },
{ "CONT|CL:R2R:5//64/v<=1.64", 35.8 },
{ "CONT|CL:R2R:5//64/v<=1.8", 9.43 },
{ "CONT|CL:R2R:5//64/v<=1e-06", 6 },
{ "CONT|CL:R2R:5//64/v<=2.1", 6.29 },
{ "CONT|CL:R2R:5//64/v<=2.6", 6.37 },
{ "CONT|CL:R2R:5//64/v<=2.95", 6.84 },
{ "CONT|CL:R2R:5//64/v<=3.1", 7.34 },
{ "CONT|CL:R2R:5//64/v<=3.141", 13.9 },
{ "CONT|CL:R2R:5//64/v>3.141", 8.18 },
{ "CONT|CL:R2R:6//53/t<=0.1", 6.46 },
{ "CONT|CL:R2R:6//53/t<=0.5", 6.77 },
{ "CONT|CL:R2R:6//53/t<=1", 6.89 },
{ "CONT|CL:R2R:6//53/t<=1.3", 7.32 },
{ "CONT|CL:R2R:6//53/t<=1.5", 8.06 },
{ "CONT|CL:R2R:6//53/t<=1.64", 8.32 },
{ "CONT|CL:R2R:6//53/t<=1.8", 7.72 },
{ "CONT|CL:R2R:6//53/t<=1e-06", 6.46 },
{ "CONT|CL:R2R:6//53/t<=2.1", 7 },
{ "CONT|CL:R2R:6//53/t<=2.6", 7.16 },
{ "CONT|CL:R2R:6//53/t<=2.95", 6.35 },
{ "CONT|CL:R2R:6//53/t<=3.1", 6.15 },
{ "CONT|CL:R2R:6//53/t<=3.141", 6.01 },
{ "CONT|CL:R2R:6//53/t>3.141", 6 },
{ "CONT|CL:R2R:6//53/u<=0.1", 6.02 },
{ "CONT|CL:R2R:6//53/u<=0.5", 6.13 },
{ "CONT|CL:R2R:6//53/u<=1", 6.35 },
{ "CONT|CL:R2R:6//53/u<=1.3", 6.75 },
{ "CONT|CL:R2R:6//53/u<=1.5", 7.93 },
{ "CONT|CL:R2R:6//53/u<=1.64", 7.98 },
{ "CONT|CL:R2R:6//53/u<=1.8", 7.11 },
{ "CONT|CL:R2R:6//53/u<=1e-06", 6.18 },
{ "CONT|CL:R2R:6//53/u<=2.1", 6.8 },
{ "CONT|CL:R2R:6//53/u<=2.6", 6.45 },
{ "CONT|CL:R2R:6//53/u<=2.95", 6.23 },
{ "CONT|CL:R2R:6//53/u<=3.1", 6.08 },
{ "CONT|CL:R2R:6//53/v<=0.1", 6.01 },
{ "CONT|CL:R2R:6//53/v<=0.5", 6.11 },
{ "CONT|CL:R2R:6//53/v<=1", 6.28 },
{ "CONT|CL:R2R:6//53/v<=1.3", 6.44 },
{ "CONT|CL:R2R:6//53/v<=1.5", 7.24 },
{ "CONT|CL:R2R:6//53/v<=1.64", 7.94 },
{ "CONT|CL:R2R:6//53/v<=1.8", 7.23 },
{ "CONT|CL:R2R:6//53/v<=1e-06", 6.09 },
{ "CONT|CL:R2R:6//53/v<=2.1", 6.46 },
{ "CONT|CL:R2R:6//53/v<=2.6", 6.3 },
{ "CONT|CL:R2R:6//53/v<=2.95", 6.13 },
{ "CONT|CL:R2R:6//53/v<=3.1", 6.04 },
{ "CONT|CL:R2R:6//53/v<=3.141", 6 },
{ "CONT|CL:R2R:6//53/v>3.141", 6 },
{ "CONT|CL:R2R:6//64/t<=0.1", 6.71 },
{ "CONT|CL:R2R:6//64/t<=0.5", 6.89 },
{ "CONT|CL:R2R:6//64/t<=1", 7.16 },
{ "CONT|CL:R2R:6//64/t<=1.3", 7.38 },
{ "CONT|CL:R2R:6//64/t<=1.5", 8.32 },
{ "CONT|CL:R2R:6//64/t<=1.64", 513 },
{ "CONT|CL:R2R:6//64/t<=1.8", 185 },
{ "CONT|CL:R2R:6//64/t<=1e-06", 6.46 },
{ "CONT|CL:R2R:6//64/t<=2.1", 18.3 },
{ "CONT|CL:R2R:6//64/t<=2.6", 7.51 },
{ "CONT|CL:R2R:6//64/t<=2.95", 6.49 },
{ "CONT|CL:R2R:6//64/t<=3.1", 6.16 },
{ "CONT|CL:R2R:6//64/t<=3.141", 12 },
{ "CONT|CL:R2R:6//64/t>3.141", 6 },
{ "CONT|CL:R2R:6//64/u<=0.1", 12 },
{ "CONT|CL:R2R:6//64/u<=0.5", 6.15 },
{ "CONT|CL:R2R:6//64/u<=1", 6.34 },
{ "CONT|CL:R2R:6//64/u<=1.3", 6.91 },
{ "CONT|CL:R2R:6//64/u<=1.5", 7.84 },
{ "CONT|CL:R2R:6//64/u<=1.64", 503 },
{ "CONT|CL:R2R:6//64/u<=1.8", 135 },
{ "CONT|CL:R2R:6//64/u<=1e-06", 6 },
{ "CONT|CL:R2R:6//64/u<=2.1", 10.6 },
{ "CONT|CL:R2R:6//64/u<=2.6", 6.69 },
{ "CONT|CL:R2R:6//64/u<=2.95", 6.36 },
{ "CONT|CL:R2R:6//64/u<=3.1", 12.1 },
{ "CONT|CL:R2R:6//64/v<=0.1", 6.03 },
{ "CONT|CL:R2R:6//64/v<=0.5", 6.11 },
{ "CONT|CL:R2R:6//64/v<=1", 6.26 },
{ "CONT|CL:R2R:6//64/v<=1.3", 6.59 },
{ "CONT|CL:R2R:6//64/v<=1.5", 8.07 },
{ "CONT|CL:R2R:6//64/v<=1.64", 538 },
{ "CONT|CL:R2R:6//64/v<=1.8", 83.2 },
{ "CONT|CL:R2R:6//64/v<=1e-06", 6 },
{ "CONT|CL:R2R:6//64/v<=2.1", 7.52 },
{ "CONT|CL:R2R:6//64/v<=2.6", 6.36 },
{ "CONT|CL:R2R:6//64/v<=2.95", 6.18 },
{ "CONT|CL:R2R:6//64/v<=3.1", 6.03 },
{ "CONT|CL:R2R:6//64/v<=3.141", 12 },
{ "CONT|CL:R2R:6//64/v>3.141", 6 },
{ "CONT|LI:C2C:2//24/a<=0.25", 7.79 },
{ "CONT|LI:C2C:2//24/a<=0.75", 7.21 },
{ "CONT|LI:C2C:2//24/a<=0.75n", 8.83 },
{ "CONT|LI:C2C:2//24/a<=1", 8.12 },
{ "CONT|LI:C2C:2//24/a<=1.4", 9.69 },
{ "CONT|LI:C2C:2//24/a<=1.4h", 10.9 },
{ "CONT|LI:C2C:2//24/a<=1.4n", 8.61 },
{ "CONT|LI:C2C:2//24/a<=1e+10", 8.26 },
{ "CONT|LI:C2C:2//24/a<=1h", 13.2 },
{ "CONT|LI:C2C:2//24/a<=1n", 7.01 },
{ "CONT|LI:C2C:2//24/a<=4", 7.15 },
{ "CONT|LI:C2C:2//24/a<=4h", 8.46 },
{ "CONT|LI:C2C:2//24/a<=4n", 8.02 },
{ "CONT|LI:C2C:2//24/a>1e+10", 8.39 },
{ "CONT|LI:C2C:2//24/r<=0.25", 7.83 },
{ "CONT|LI:C2C:2//24/r<=0.75", 13.5 },
{ "CONT|LI:C2C:2//24/r<=0.75n", 8.56 },
{ "CONT|LI:C2C:2//24/r<=1", 13.6 },
{ "CONT|LI:C2C:2//24/r<=1.4", 13.5 },
{ "CONT|LI:C2C:2//24/r<=1.4n", 12.4 },
{ "CONT|LI:C2C:2//24/r<=1e+10", 14.2 },
{ "CONT|LI:C2C:2//24/r<=1n", 12.8 },
{ "CONT|LI:C2C:2//24/r<=4", 13 },
{ "CONT|LI:C2C:2//24/r<=4h", 12.4 },
{ "CONT|LI:C2C:2//24/r<=4n", 12.5 },
{ "CONT|LI:C2C:2//24/r>1e+10", 13.6 },
{ "CONT|LI:C2C:2//53/a<=0.25", 7.32 },
{ "CONT|LI:C2C:2//53/a<=0.75", 8.02 },
{ "CONT|LI:C2C:2//53/a<=0.75n", 12.9 },
{ "CONT|LI:C2C:2//53/a<=1", 10.9 },
{ "CONT|LI:C2C:2//53/a<=1.4", 10.9 },
{ "CONT|LI:C2C:2//53/a<=1.4h", 8.53 },
{ "CONT|LI:C2C:2//53/a<=1.4n", 8.59 },
{ "CONT|LI:C2C:2//53/a<=1e+10", 8.22 },
{ "CONT|LI:C2C:2//53/a<=1h", 13.5 },
{ "CONT|LI:C2C:2//53/a<=1n", 7.13 },
{ "CONT|LI:C2C:2//53/a<=4", 7.53 },
{ "CONT|LI:C2C:2//53/a<=4h", 8 },
{ "CONT|LI:C2C:2//53/a<=4n", 8.22 },
{ "CONT|LI:C2C:2//53/a>1e+10", 8.59 },
{ "CONT|LI:C2C:2//53/r<=0.25", 7.67 },
{ "CONT|LI:C2C:2//53/r<=0.75", 10.8 },
{ "CONT|LI:C2C:2//53/r<=0.75n", 21 },
{ "CONT|LI:C2C:2//53/r<=1", 17.6 },
{ "CONT|LI:C2C:2//53/r<=1.4", 17.7 },
{ "CONT|LI:C2C:2//53/r<=1.4n", 12.2 },
{ "CONT|LI:C2C:2//53/r<=1e+10", 14 },
{ "CONT|LI:C2C:2//53/r<=1n", 12.8 },
{ "CONT|LI:C2C:2//53/r<=4", 13.7 },
{ "CONT|LI:C2C:2//53/r<=4h", 12.4 },
{ "CONT|LI:C2C:2//53/r<=4n", 12.7 },
{ "CONT|LI:C2C:2//53/r>1e+10", 13.5 },
{ "CONT|LI:C2C:2//64/a<=0.25", 7.47 },
{ "CONT|LI:C2C:2//64/a<=0.75", 7.64 },
{ "CONT|LI:C2C:2//64/a<=0.75n", 8.14 },
{ "CONT|LI:C2C:2//64/a<=1", 7.59 },
{ "CONT|LI:C2C:2//64/a<=1.4", 8.03 },
{ "CONT|LI:C2C:2//64/a<=1.4h", 14.6 },
{ "CONT|LI:C2C:2//64/a<=1.4n", 8.35 },
{ "CONT|LI:C2C:2//64/a<=1e+10", 8.3 },
{ "CONT|LI:C2C:2//64/a<=1h", 13 },
{ "CONT|LI:C2C:2//64/a<=1n", 7.25 },
{ "CONT|LI:C2C:2//64/a<=4", 7.08 },
{ "CONT|LI:C2C:2//64/a<=4h", 7.75 },
{ "CONT|LI:C2C:2//64/a<=4n", 8.39 },
{ "CONT|LI:C2C:2//64/a>1e+10", 8.15 },
{ "CONT|LI:C2C:2//64/r<=0.25", 12.7 },
{ "CONT|LI:C2C:2//64/r<=0.75", 13.4 },
{ "CONT|LI:C2C:2//64/r<=0.75n", 14 },
{ "CONT|LI:C2C:2//64/r<=1", 13.3 },
{ "CONT|LI:C2C:2//64/r<=1.4", 13.1 },
{ "CONT|LI:C2C:2//64/r<=1.4n", 12.2 },
{ "CONT|LI:C2C:2//64/r<=1e+10", 13.9 },
{ "CONT|LI:C2C:2//64/r<=1n", 12.4 },
{ "CONT|LI:C2C:2//64/r<=4", 12.9 },
{ "CONT|LI:C2C:2//64/r<=4h", 12.4 },
{ "CONT|LI:C2C:2//64/r<=4n", 12.4 },
{ "CONT|LI:C2C:2//64/r>1e+10", 7.31 },
{ "CONT|LI:C2C:3//53/a<=0.25", 7.3 },
{ "CONT|LI:C2C:3//53/a<=0.75", 7.49 },
{ "CONT|LI:C2C:3//53/a<=0.75n", 11.2 },
{ "CONT|LI:C2C:3//53/a<=1", 26.5 },
{ "CONT|LI:C2C:3//53/a<=1.4", 25.8 },
{ "CONT|LI:C2C:3//53/a<=1.4h", 33.4 },
{ "CONT|LI:C2C:3//53/a<=1.4n", 15.4 },
{ "CONT|LI:C2C:3//53/a<=1e+10", 9.07 },
{ "CONT|LI:C2C:3//53/a<=1h", 36.3 },
{ "CONT|LI:C2C:3//53/a<=1n", 12.1 },
{ "CONT|LI:C2C:3//53/a<=4", 8.05 },
{ "CONT|LI:C2C:3//53/a<=4h", 8.07 },
{ "CONT|LI:C2C:3//53/a<=4n", 7.18 },
{ "CONT|LI:C2C:3//53/a>1e+10", 9.7 },
{ "CONT|LI:C2C:3//53/r<=0.25", 7.43 },
{ "CONT|LI:C2C:3//53/r<=0.75", 7.61 },
{ "CONT|LI:C2C:3//53/r<=0.75n", 23.7 },
{ "CONT|LI:C2C:3//53/r<=1", 13.4 },
{ "CONT|LI:C2C:3//53/r<=1.4", 13.3 },
{ "CONT|LI:C2C:3//53/r<=1.4n", 12.5 },
{ "CONT|LI:C2C:3//53/r<=1e+10", 8.72 },
{ "CONT|LI:C2C:3//53/r<=1n", 12.8 },
{ "CONT|LI:C2C:3//53/r<=4", 7.23 },
{ "CONT|LI:C2C:3//53/r<=4h", 12.5 },
{ "CONT|LI:C2C:3//53/r<=4n", 12.7 },
{ "CONT|LI:C2C:3//53/r>1e+10", 14.3 },
{ "CONT|LI:C2C:3//64/a<=0.25", 7.7 },
{ "CONT|LI:C2C:3//64/a<=0.75", 7.73 },
{ "CONT|LI:C2C:3//64/a<=0.75n", 10 },
{ "CONT|LI:C2C:3//64/a<=1", 7.56 },
{ "CONT|LI:C2C:3//64/a<=1.4", 8.07 },
{ "CONT|LI:C2C:3//64/a<=1.4h", 13.7 },
{ "CONT|LI:C2C:3//64/a<=1.4n", 7.03 },
{ "CONT|LI:C2C:3//64/a<=1e+10", 8.93 },
{ "CONT|LI:C2C:3//64/a<=1h", 13.2 },
{ "CONT|LI:C2C:3//64/a<=1n", 7.54 },
{ "CONT|LI:C2C:3//64/a<=4", 8.16 },
{ "CONT|LI:C2C:3//64/a<=4h", 8.08 },
{ "CONT|LI:C2C:3//64/a<=4n", 7.04 },
{ "CONT|LI:C2C:3//64/a>1e+10", 10.4 },
{ "CONT|LI:C2C:3//64/r<=0.25", 12.4 },
{ "CONT|LI:C2C:3//64/r<=0.75", 13.1 },
{ "CONT|LI:C2C:3//64/r<=0.75n", 13 },
{ "CONT|LI:C2C:3//64/r<=1", 12.8 },
{ "CONT|LI:C2C:3//64/r<=1.4", 12.8 },
{ "CONT|LI:C2C:3//64/r<=1.4n", 12.3 },
{ "CONT|LI:C2C:3//64/r<=1e+10", 14.7 },
{ "CONT|LI:C2C:3//64/r<=1n", 12.4 },
{ "CONT|LI:C2C:3//64/r<=4", 12.5 },
{ "CONT|LI:C2C:3//64/r<=4h", 12.6 },
{ "CONT|LI:C2C:3//64/r<=4n", 12.6 },
{ "CONT|LI:C2C:3//64/r>1e+10", 10.3 },
{ "CONT|LI:C2C:4//53/a<=0.25", 7.47 },
{ "CONT|LI:C2C:4//53/a<=0.75", 7.97 },
{ "CONT|LI:C2C:4//53/a<=0.75n", 87.2 },
{ "CONT|LI:C2C:4//53/a<=1", 9.81 },
{ "CONT|LI:C2C:4//53/a<=1.4", 15.5 },
{ "CONT|LI:C2C:4//53/a<=1.4h", 21.7 },
{ "CONT|LI:C2C:4//53/a<=1.4n", 8.75 },
{ "CONT|LI:C2C:4//53/a<=1e+10", 11.8 },
{ "CONT|LI:C2C:4//53/a<=1h", 15.8 },
{ "CONT|LI:C2C:4//53/a<=1n", 85.3 },
{ "CONT|LI:C2C:4//53/a<=4", 7.96 },
{ "CONT|LI:C2C:4//53/a<=4h", 8.87 },
{ "CONT|LI:C2C:4//53/a<=4n", 7.85 },
{ "CONT|LI:C2C:4//53/a>1e+10", 12.5 },
{ "CONT|LI:C2C:4//53/r<=0.25", 7.47 },
{ "CONT|LI:C2C:4//53/r<=0.75", 7.46 },
{ "CONT|LI:C2C:4//53/r<=0.75n", 173 },
{ "CONT|LI:C2C:4//53/r<=1", 13.1 },
{ "CONT|LI:C2C:4//53/r<=1.4", 13.7 },
{ "CONT|LI:C2C:4//53/r<=1.4n", 126 },
{ "CONT|LI:C2C:4//53/r<=1e+10", 14.9 },
{ "CONT|LI:C2C:4//53/r<=1n", 219 },
{ "CONT|LI:C2C:4//53/r<=4", 7.36 },
{ "CONT|LI:C2C:4//53/r<=4h", 12.9 },
{ "CONT|LI:C2C:4//53/r<=4n", 55.5 },
{ "CONT|LI:C2C:4//53/r>1e+10", 14.4 },
{ "CONT|LI:C2C:4//64/a<=0.25", 7.65 },
{ "CONT|LI:C2C:4//64/a<=0.75", 7.57 },
{ "CONT|LI:C2C:4//64/a<=0.75n", 11.3 },
{ "CONT|LI:C2C:4//64/a<=1", 7.67 },
{ "CONT|LI:C2C:4//64/a<=1.4", 9.35 },
{ "CONT|LI:C2C:4//64/a<=1.4h", 10.1 },
{ "CONT|LI:C2C:4//64/a<=1.4n", 6.98 },
{ "CONT|LI:C2C:4//64/a<=1e+10", 17.6 },
{ "CONT|LI:C2C:4//64/a<=1h", 13.5 },
{ "CONT|LI:C2C:4//64/a<=1n", 7.15 },
{ "CONT|LI:C2C:4//64/a<=4", 8.01 },
{ "CONT|LI:C2C:4//64/a<=4h", 8.43 },
{ "CONT|LI:C2C:4//64/a<=4n", 6.91 },
{ "CONT|LI:C2C:4//64/a>1e+10", 12.5 },
{ "CONT|LI:C2C:4//64/r<=0.25", 13.2 },
{ "CONT|LI:C2C:4//64/r<=0.75", 13 },
{ "CONT|LI:C2C:4//64/r<=0.75n", 14.1 },
{ "CONT|LI:C2C:4//64/r<=1", 12.8 },
{ "CONT|LI:C2C:4//64/r<=1.4", 13.1 },
{ "CONT|LI:C2C:4//64/r<=1.4n", 12.5 },
{ "CONT|LI:C2C:4//64/r<=1e+10", 15 },
{ "CONT|LI:C2C:4//64/r<=1n", 12.3 },
{ "CONT|LI:C2C:4//64/r<=4", 12.8 },
{ "CONT|LI:C2C:4//64/r<=4h", 12.8 },
{ "CONT|LI:C2C:4//64/r<=4n", 12.6 },
{ "CONT|LI:C2C:4//64/r>1e+10", 15.9 },
{ "CONT|LI:C2C:5//53/a<=0.25", 7.25 },
{ "CONT|LI:C2C:5//53/a<=0.75", 7.54 },
{ "CONT|LI:C2C:5//53/a<=0.75n", 7.85 },
{ "CONT|LI:C2C:5//53/a<=1", 8.07 },
{ "CONT|LI:C2C:5//53/a<=1.4", 10.3 },
{ "CONT|LI:C2C:5//53/a<=1.4h", 10.7 },
{ "CONT|LI:C2C:5//53/a<=1.4n", 8.05 },
{ "CONT|LI:C2C:5//53/a<=1e+10", 12.9 },
{ "CONT|LI:C2C:5//53/a<=1h", 13.5 },
{ "CONT|LI:C2C:5//53/a<=1n", 7.03 },
{ "CONT|LI:C2C:5//53/a<=4", 8.02 },
{ "CONT|LI:C2C:5//53/a<=4h", 8.56 },
{ "CONT|LI:C2C:5//53/a<=4n", 8.34 },
{ "CONT|LI:C2C:5//53/a>1e+10", 15.6 },
{ "CONT|LI:C2C:5//53/r<=0.25", 6.91 },
{ "CONT|LI:C2C:5//53/r<=0.75", 6.89 },
{ "CONT|LI:C2C:5//53/r<=0.75n", 7.33 },
{ "CONT|LI:C2C:5//53/r<=1", 13.1 },
{ "CONT|LI:C2C:5//53/r<=1.4", 12.9 },
{ "CONT|LI:C2C:5//53/r<=1.4n", 12.7 },
{ "CONT|LI:C2C:5//53/r<=1e+10", 15.7 },
{ "CONT|LI:C2C:5//53/r<=1n", 12.3 },
{ "CONT|LI:C2C:5//53/r<=4", 7.06 },
{ "CONT|LI:C2C:5//53/r<=4h", 13.1 },
{ "CONT|LI:C2C:5//53/r<=4n", 12.6 },
{ "CONT|LI:C2C:5//53/r>1e+10", 15.9 },
{ "CONT|LI:C2C:5//64/a<=0.25", 7.77 },
{ "CONT|LI:C2C:5//64/a<=0.75", 7.64 },
{ "CONT|LI:C2C:5//64/a<=0.75n", 7.62 },
{ "CONT|LI:C2C:5//64/a<=1", 8.83 },
{ "CONT|LI:C2C:5//64/a<=1.4", 13 },
{ "CONT|LI:C2C:5//64/a<=1.4h", 13.5 },
{ "CONT|LI:C2C:5//64/a<=1.4n", 7.06 },
{ "CONT|LI:C2C:5//64/a<=1e+10", 14.8 },
{ "CONT|LI:C2C:5//64/a<=1h", 12.8 },
{ "CONT|LI:C2C:5//64/a<=1n", 6.9 },
{ "CONT|LI:C2C:5//64/a<=4", 8.14 },
{ "CONT|LI:C2C:5//64/a<=4h", 9.08 },
{ "CONT|LI:C2C:5//64/a<=4n", 6.85 },
{ "CONT|LI:C2C:5//64/a>1e+10", 17.2 },
{ "CONT|LI:C2C:5//64/r<=0.25", 12.8 },
{ "CONT|LI:C2C:5//64/r<=0.75", 13.3 },
{ "CONT|LI:C2C:5//64/r<=0.75n", 13.2 },
{ "CONT|LI:C2C:5//64/r<=1", 12.6 },
{ "CONT|LI:C2C:5//64/r<=1.4", 13 },
{ "CONT|LI:C2C:5//64/r<=1.4n", 12.7 },
{ "CONT|LI:C2C:5//64/r<=1e+10", 13.3 },
{ "CONT|LI:C2C:5//64/r<=1n", 12.3 },
{ "CONT|LI:C2C:5//64/r<=4", 12.8 },
{ "CONT|LI:C2C:5//64/r<=4h", 13.3 },
{ "CONT|LI:C2C:5//64/r<=4n", 12.5 },
{ "CONT|LI:C2C:5//64/r>1e+10", 17.5 },
{ "CONT|LI:C2C:6//53/a<=0.25", 7.3 },
{ "CONT|LI:C2C:6//53/a<=0.75", 7.39 },
{ "CONT|LI:C2C:6//53/a<=0.75n", 8.94 },
{ "CONT|LI:C2C:6//53/a<=1", 8.3 },
{ "CONT|LI:C2C:6//53/a<=1.4", 11.6 },
{ "CONT|LI:C2C:6//53/a<=1.4h", 11.4 },
{ "CONT|LI:C2C:6//53/a<=1.4n", 6.99 },
{ "CONT|LI:C2C:6//53/a<=1e+10", 14.8 },
{ "CONT|LI:C2C:6//53/a<=1h", 13.7 },
{ "CONT|LI:C2C:6//53/a<=1n", 6.82 },
{ "CONT|LI:C2C:6//53/a<=4", 7.9 },
{ "CONT|LI:C2C:6//53/a<=4h", 8.7 },
{ "CONT|LI:C2C:6//53/a<=4n", 7.83 },
{ "CONT|LI:C2C:6//53/a>1e+10", 21.4 },
{ "CONT|LI:C2C:6//53/r<=0.25", 6.74 },
{ "CONT|LI:C2C:6//53/r<=0.75", 7.02 },
{ "CONT|LI:C2C:6//53/r<=0.75n", 7.61 },
{ "CONT|LI:C2C:6//53/r<=1", 12.8 },
{ "CONT|LI:C2C:6//53/r<=1.4", 13.3 },
{ "CONT|LI:C2C:6//53/r<=1.4n", 12.5 },
{ "CONT|LI:C2C:6//53/r<=1e+10", 17 },
{ "CONT|LI:C2C:6//53/r<=1n", 12.6 },
{ "CONT|LI:C2C:6//53/r<=4", 7.02 },
{ "CONT|LI:C2C:6//53/r<=4h", 13.1 },
{ "CONT|LI:C2C:6//53/r<=4n", 12.5 },
{ "CONT|LI:C2C:6//53/r>1e+10", 18.6 },
{ "CONT|LI:C2C:6//64/a<=0.25", 7.59 },
{ "CONT|LI:C2C:6//64/a<=0.75", 7.63 },
{ "CONT|LI:C2C:6//64/a<=0.75n", 7.42 },
{ "CONT|LI:C2C:6//64/a<=1", 9.01 },
{ "CONT|LI:C2C:6//64/a<=1.4", 14.4 },
{ "CONT|LI:C2C:6//64/a<=1.4h", 16.8 },
{ "CONT|LI:C2C:6//64/a<=1.4n", 6.86 },
{ "CONT|LI:C2C:6//64/a<=1e+10", 15.1 },
{ "CONT|LI:C2C:6//64/a<=1h", 12.6 },
{ "CONT|LI:C2C:6//64/a<=1n", 6.91 },
{ "CONT|LI:C2C:6//64/a<=4", 7.63 },
{ "CONT|LI:C2C:6//64/a<=4h", 10.3 },
{ "CONT|LI:C2C:6//64/a<=4n", 6.93 },
{ "CONT|LI:C2C:6//64/a>1e+10", 16.9 },
{ "CONT|LI:C2C:6//64/r<=0.25", 12.8 },
{ "CONT|LI:C2C:6//64/r<=0.75", 13.3 },
{ "CONT|LI:C2C:6//64/r<=0.75n", 12.7 },
{ "CONT|LI:C2C:6//64/r<=1", 13.6 },
{ "CONT|LI:C2C:6//64/r<=1.4", 13.4 },
{ "CONT|LI:C2C:6//64/r<=1.4n", 12.4 },
{ "CONT|LI:C2C:6//64/r<=1e+10", 14.3 },
{ "CONT|LI:C2C:6//64/r<=1n", 12.3 },
{ "CONT|LI:C2C:6//64/r<=4", 12.9 },
{ "CONT|LI:C2C:6//64/r<=4h", 13.2 },
{ "CONT|LI:C2C:6//64/r<=4n", 12.5 },
{ "CONT|LI:C2C:6//64/r>1e+10", 22.8 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a<=0.3", 11.3 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a<=0.6", 8.44 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a<=1", 9.43 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a<=1.7", 9.01 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a<=4", 11.5 },
{ "CONT|LI:NC2C:0/-1/53/m<=10a>4", 16.1 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a<=0.3", 44.8 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a<=0.6", 12.8 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a<=1", 8.61 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a<=1.7", 7.66 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a<=4", 8.47 },
{ "CONT|LI:NC2C:0/-1/53/m<=120a>4", 72.9 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a<=0.3", 73.8 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a<=0.6", 13.2 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a<=1", 8.22 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a<=1.7", 8.2 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a<=4", 7.94 },
{ "CONT|LI:NC2C:0/-1/53/m<=171a>4", 89.5 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a<=0.3", 6.56 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a<=0.6", 12.7 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a<=1", 7.48 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a<=1.7", 7.21 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a<=4", 7.17 },
{ "CONT|LI:NC2C:0/-1/53/m<=1a>4", 6.83 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a<=0.3", 19.1 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a<=0.6", 10 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a<=1", 7.98 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a<=1.7", 8.99 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a<=4", 12.3 },
{ "CONT|LI:NC2C:0/-1/53/m<=20a>4", 19.2 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a<=0.3", 7.42 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a<=0.6", 7.46 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a<=1", 10 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a<=1.7", 10.2 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a<=4", 7.81 },
{ "CONT|LI:NC2C:0/-1/53/m<=2a>4", 8.52 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a<=0.3", 132 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a<=0.6", 12.9 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a<=1", 13 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a<=1.7", 13.1 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a<=4", 13 },
{ "CONT|LI:NC2C:0/-1/53/m<=300a>4", 106 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a<=0.3", 26.6 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a<=0.6", 11.3 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a<=1", 7.62 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a<=1.7", 7.59 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a<=4", 8.05 },
{ "CONT|LI:NC2C:0/-1/53/m<=40a>4", 22.6 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a<=0.3", 13.1 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a<=0.6", 14.6 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a<=1", 10.4 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a<=1.7", 8.01 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a<=4", 9.78 },
{ "CONT|LI:NC2C:0/-1/53/m<=5a>4", 12.5 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a<=0.3", 37.9 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a<=0.6", 8.53 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a<=1", 7.29 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a<=1.7", 7.69 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a<=4", 7.11 },
{ "CONT|LI:NC2C:0/-1/53/m<=80a>4", 40.2 },
{ "CONT|LI:NC2C:0/0/53/a<=0.25", 12.6 },
{ "CONT|LI:NC2C:0/0/53/a<=0.75", 12.9 },
{ "CONT|LI:NC2C:0/0/53/a<=0.75n", 12.7 },
{ "CONT|LI:NC2C:0/0/53/a<=1", 12.8 },
{ "CONT|LI:NC2C:0/0/53/a<=1.4", 13 },
{ "CONT|LI:NC2C:0/0/53/a<=1.4h", 12.4 },
{ "CONT|LI:NC2C:0/0/53/a<=1.4n", 12.5 },
{ "CONT|LI:NC2C:0/0/53/a<=1e+10", 7.71 },
{ "CONT|LI:NC2C:0/0/53/a<=1h", 12.4 },
{ "CONT|LI:NC2C:0/0/53/a<=1n", 12.6 },
{ "CONT|LI:NC2C:0/0/53/a<=4", 13.2 },
{ "CONT|LI:NC2C:0/0/53/a<=4h", 13 },
{ "CONT|LI:NC2C:0/0/53/a<=4n", 12.8 },
{ "CONT|LI:NC2C:0/0/53/a>1e+10", 13 },
{ "CONT|LI:NC2C:0/0/53/r<=0.25", 12.2 },
{ "CONT|LI:NC2C:0/0/53/r<=0.75", 12.6 },
{ "CONT|LI:NC2C:0/0/53/r<=0.75n", 12.2 },
{ "CONT|LI:NC2C:0/0/53/r<=1", 12.2 },
{ "CONT|LI:NC2C:0/0/53/r<=1.4", 12.3 },
{ "CONT|LI:NC2C:0/0/53/r<=1.4n", 12.1 },
{ "CONT|LI:NC2C:0/0/53/r<=1e+10", 12.6 },
{ "CONT|LI:NC2C:0/0/53/r<=1n", 12.1 },
{ "CONT|LI:NC2C:0/0/53/r<=4", 12.4 },
{ "CONT|LI:NC2C:0/0/53/r<=4h", 12.2 },
{ "CONT|LI:NC2C:0/0/53/r<=4n", 12.2 },
{ "CONT|LI:NC2C:0/0/53/r>1e+10", 8.1 },
{ "CONT|LI:NC2C:0/1/53/a<=0.25", 12.8 },
{ "CONT|LI:NC2C:0/1/53/a<=0.75", 12.8 },
{ "CONT|LI:NC2C:0/1/53/a<=0.75n", 12.6 },
{ "CONT|LI:NC2C:0/1/53/a<=1", 12.9 },
{ "CONT|LI:NC2C:0/1/53/a<=1.4", 13 },
{ "CONT|LI:NC2C:0/1/53/a<=1.4h", 12.5 },
{ "CONT|LI:NC2C:0/1/53/a<=1.4n", 12.5 },
{ "CONT|LI:NC2C:0/1/53/a<=1e+10", 7.08 },
{ "CONT|LI:NC2C:0/1/53/a<=1h", 12.3 },
{ "CONT|LI:NC2C:0/1/53/a<=1n", 12.6 },
{ "CONT|LI:NC2C:0/1/53/a<=4", 12.8 },
{ "CONT|LI:NC2C:0/1/53/a<=4h", 12.4 },
{ "CONT|LI:NC2C:0/1/53/a<=4n", 12.4 },
{ "CONT|LI:NC2C:0/1/53/a>1e+10", 12.9 },
{ "CONT|LI:NC2C:0/1/53/r<=0.25", 12.5 },
{ "CONT|LI:NC2C:0/1/53/r<=0.75", 12.5 },
{ "CONT|LI:NC2C:0/1/53/r<=0.75n", 12.6 },
{ "CONT|LI:NC2C:0/1/53/r<=1", 12.2 },
{ "CONT|LI:NC2C:0/1/53/r<=1.4", 12.5 },
{ "CONT|LI:NC2C:0/1/53/r<=1.4n", 12 },
{ "CONT|LI:NC2C:0/1/53/r<=1e+10", 12.7 },
{ "CONT|LI:NC2C:0/1/53/r<=1n", 12.1 },
{ "CONT|LI:NC2C:0/1/53/r<=4", 12.4 },
{ "CONT|LI:NC2C:0/1/53/r<=4h", 12 },
{ "CONT|LI:NC2C:0/1/53/r<=4n", 12.1 },
{ "CONT|LI:NC2C:0/1/53/r>1e+10", 8.7 },
{ "CONT|LI:NC2C:0/2/53/a<=0.25", 13.3 },
{ "CONT|LI:NC2C:0/2/53/a<=0.75", 14 },
{ "CONT|LI:NC2C:0/2/53/a<=0.75n", 17.2 },
{ "CONT|LI:NC2C:0/2/53/a<=1", 15.6 },
{ "CONT|LI:NC2C:0/2/53/a<=1.4", 15.6 },
{ "CONT|LI:NC2C:0/2/53/a<=1.4h", 14.5 },
{ "CONT|LI:NC2C:0/2/53/a<=1.4n", 14.6 },
{ "CONT|LI:NC2C:0/2/53/a<=1e+10", 8.22 },
{ "CONT|LI:NC2C:0/2/53/a<=1h", 13.5 },
{ "CONT|LI:NC2C:0/2/53/a<=1n", 13.1 },
{ "CONT|LI:NC2C:0/2/53/a<=4", 13.5 },
{ "CONT|LI:NC2C:0/2/53/a<=4h", 14 },
{ "CONT|LI:NC2C:0/2/53/a<=4n", 14.2 },
{ "CONT|LI:NC2C:0/2/53/a>1e+10", 14.6 },
{ "CONT|LI:NC2C:0/2/53/r<=0.25", 13.7 },
{ "CONT|LI:NC2C:0/2/53/r<=0.75", 15.5 },
{ "CONT|LI:NC2C:0/2/53/r<=0.75n", 27.9 },
{ "CONT|LI:NC2C:0/2/53/r<=1", 22.3 },
{ "CONT|LI:NC2C:0/2/53/r<=1.4", 23.2 },
{ "CONT|LI:NC2C:0/2/53/r<=1.4n", 12.2 },
{ "CONT|LI:NC2C:0/2/53/r<=1e+10", 14 },
{ "CONT|LI:NC2C:0/2/53/r<=1n", 12.8 },
{ "CONT|LI:NC2C:0/2/53/r<=4", 13.7 },
{ "CONT|LI:NC2C:0/2/53/r<=4h", 12.4 },
{ "CONT|LI:NC2C:0/2/53/r<=4n", 12.7 },
{ "CONT|LI:NC2C:0/2/53/r>1e+10", 13.5 },
{ "CONT|LI:NC2C:0/200+/53/a<=0.25", 6 },
{ "CONT|LI:NC2C:0/200+/53/a<=0.75", 9.05 },
{ "CONT|LI:NC2C:0/200+/53/a<=0.75n", 6 },
{ "CONT|LI:NC2C:0/200+/53/a<=1", 22.3 },
{ "CONT|LI:NC2C:0/200+/53/a<=1.4", 15.9 },
{ "CONT|LI:NC2C:0/200+/53/a<=1.4h", 7.53 },
{ "CONT|LI:NC2C:0/200+/53/a<=1.4n", 8.47 },
{ "CONT|LI:NC2C:0/200+/53/a<=1e+10", 7.5 },
{ "CONT|LI:NC2C:0/200+/53/a<=1h", 13.1 },
{ "CONT|LI:NC2C:0/200+/53/a<=1n", 6.96 },
{ "CONT|LI:NC2C:0/200+/53/a<=4", 8.61 },
{ "CONT|LI:NC2C:0/200+/53/a<=4h", 8.61 },
{ "CONT|LI:NC2C:0/200+/53/a<=4n", 11.7 },
{ "CONT|LI:NC2C:0/200+/53/a>1e+10", 7.3 },
{ "CONT|LI:NC2C:0/200+/53/r<=0.25", 6 },
{ "CONT|LI:NC2C:0/200+/53/r<=0.75", 13.5 },
{ "CONT|LI:NC2C:0/200+/53/r<=0.75n", 6 },
{ "CONT|LI:NC2C:0/200+/53/r<=1", 23.1 },
{ "CONT|LI:NC2C:0/200+/53/r<=1.4", 19.3 },
{ "CONT|LI:NC2C:0/200+/53/r<=1.4n", 12.4 },
{ "CONT|LI:NC2C:0/200+/53/r<=1e+10", 12.9 },
{ "CONT|LI:NC2C:0/200+/53/r<=1n", 12.3 },
{ "CONT|LI:NC2C:0/200+/53/r<=4", 12.8 },
{ "CONT|LI:NC2C:0/200+/53/r<=4h", 13.1 },
{ "CONT|LI:NC2C:0/200+/53/r<=4n", 15.3 },
{ "CONT|LI:NC2C:0/200+/53/r>1e+10", 13 },
{ "CONT|LI:NC2C:0/3/53/a<=0.25", 13.3 },
{ "CONT|LI:NC2C:0/3/53/a<=0.75", 13.5 },
{ "CONT|LI:NC2C:0/3/53/a<=0.75n", 18 },
{ "CONT|LI:NC2C:0/3/53/a<=1", 35.3 },
{ "CONT|LI:NC2C:0/3/53/a<=1.4", 34.4 },
{ "CONT|LI:NC2C:0/3/53/a<=1.4h", 44.5 },
{ "CONT|LI:NC2C:0/3/53/a<=1.4n", 24.6 },
{ "CONT|LI:NC2C:0/3/53/a<=1e+10", 9.31 },
{ "CONT|LI:NC2C:0/3/53/a<=1h", 36.3 },
{ "CONT|LI:NC2C:0/3/53/a<=1n", 18.7 },
{ "CONT|LI:NC2C:0/3/53/a<=4", 14.1 },
{ "CONT|LI:NC2C:0/3/53/a<=4h", 14.1 },
{ "CONT|LI:NC2C:0/3/53/a<=4n", 13.2 },
{ "CONT|LI:NC2C:0/3/53/a>1e+10", 15.7 },
{ "CONT|LI:NC2C:0/3/53/r<=0.25", 13.4 },
{ "CONT|LI:NC2C:0/3/53/r<=0.75", 13.6 },
{ "CONT|LI:NC2C:0/3/53/r<=0.75n", 31.7 },
{ "CONT|LI:NC2C:0/3/53/r<=1", 13.4 },
{ "CONT|LI:NC2C:0/3/53/r<=1.4", 13.3 },
{ "CONT|LI:NC2C:0/3/53/r<=1.4n", 12.5 },
{ "CONT|LI:NC2C:0/3/53/r<=1e+10", 14.7 },
{ "CONT|LI:NC2C:0/3/53/r<=1n", 12.8 },
{ "CONT|LI:NC2C:0/3/53/r<=4", 13.2 },
{ "CONT|LI:NC2C:0/3/53/r<=4h", 12.5 },
{ "CONT|LI:NC2C:0/3/53/r<=4n", 12.7 },
{ "CONT|LI:NC2C:0/3/53/r>1e+10", 14.3 },
{ "CONT|LI:NC2C:0/30-199/53/a<=0.25", 6.15 },
{ "CONT|LI:NC2C:0/30-199/53/a<=0.75", 8.78 },
{ "CONT|LI:NC2C:0/30-199/53/a<=0.75n", 6.35 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1", 21.8 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1.4", 17.5 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1.4h", 13.1 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1.4n", 15.3 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1e+10", 7.29 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1h", 12.8 },
{ "CONT|LI:NC2C:0/30-199/53/a<=1n", 6.97 },
{ "CONT|LI:NC2C:0/30-199/53/a<=4", 8.1 },
{ "CONT|LI:NC2C:0/30-199/53/a<=4h", 8.79 },
{ "CONT|LI:NC2C:0/30-199/53/a<=4n", 14 },
{ "CONT|LI:NC2C:0/30-199/53/a>1e+10", 7.16 },
{ "CONT|LI:NC2C:0/30-199/53/r<=0.25", 12.1 },
{ "CONT|LI:NC2C:0/30-199/53/r<=0.75", 14.3 },
{ "CONT|LI:NC2C:0/30-199/53/r<=0.75n", 12.2 },
{ "CONT|LI:NC2C:0/30-199/53/r<=1", 23.6 },
{ "CONT|LI:NC2C:0/30-199/53/r<=1.4", 24.1 },
{ "CONT|LI:NC2C:0/30-199/53/r<=1.4n", 12.4 },
{ "CONT|LI:NC2C:0/30-199/53/r<=1e+10", 13.1 },
{ "CONT|LI:NC2C:0/30-199/53/r<=1n", 12.3 },
{ "CONT|LI:NC2C:0/30-199/53/r<=4", 12.7 },
{ "CONT|LI:NC2C:0/30-199/53/r<=4h", 13.2 },
{ "CONT|LI:NC2C:0/30-199/53/r<=4n", 15 },
{ "CONT|LI:NC2C:0/30-199/53/r>1e+10", 13.1 },
{ "CONT|LI:NC2C:0/4/53/a<=0.25", 13.5 },
{ "CONT|LI:NC2C:0/4/53/a<=0.75", 14 },
{ "CONT|LI:NC2C:0/4/53/a<=0.75n", 140 },
{ "CONT|LI:NC2C:0/4/53/a<=1", 14.9 },
{ "CONT|LI:NC2C:0/4/53/a<=1.4", 19.1 },
{ "CONT|LI:NC2C:0/4/53/a<=1.4h", 29.6 },
{ "CONT|LI:NC2C:0/4/53/a<=1.4n", 14.7 },
{ "CONT|LI:NC2C:0/4/53/a<=1e+10", 14.2 },
{ "CONT|LI:NC2C:0/4/53/a<=1h", 21.1 },
{ "CONT|LI:NC2C:0/4/53/a<=1n", 136 },
{ "CONT|LI:NC2C:0/4/53/a<=4", 14 },
{ "CONT|LI:NC2C:0/4/53/a<=4h", 14.6 },
{ "CONT|LI:NC2C:0/4/53/a<=4n", 13.9 },
{ "CONT|LI:NC2C:0/4/53/a>1e+10", 20 },
{ "CONT|LI:NC2C:0/4/53/r<=0.25", 13.5 },
{ "CONT|LI:NC2C:0/4/53/r<=0.75", 13.5 },
{ "CONT|LI:NC2C:0/4/53/r<=0.75n", 231 },
{ "CONT|LI:NC2C:0/4/53/r<=1", 13.1 },
{ "CONT|LI:NC2C:0/4/53/r<=1.4", 13.7 },
{ "CONT|LI:NC2C:0/4/53/r<=1.4n", 168 },
{ "CONT|LI:NC2C:0/4/53/r<=1e+10", 14.9 },
{ "CONT|LI:NC2C:0/4/53/r<=1n", 292 },
{ "CONT|LI:NC2C:0/4/53/r<=4", 13.4 },
{ "CONT|LI:NC2C:0/4/53/r<=4h", 12.9 },
{ "CONT|LI:NC2C:0/4/53/r<=4n", 63.9 },
{ "CONT|LI:NC2C:0/4/53/r>1e+10", 17.4 },
{ "CONT|LI:NC2C:0/5/53/a<=0.25", 13.3 },
{ "CONT|LI:NC2C:0/5/53/a<=0.75", 13.5 },
{ "CONT|LI:NC2C:0/5/53/a<=0.75n", 13.8 },
{ "CONT|LI:NC2C:0/5/53/a<=1", 14.1 },
{ "CONT|LI:NC2C:0/5/53/a<=1.4", 14.7 },
{ "CONT|LI:NC2C:0/5/53/a<=1.4h", 17.1 },
{ "CONT|LI:NC2C:0/5/53/a<=1.4n", 14.1 },
{ "CONT|LI:NC2C:0/5/53/a<=1e+10", 15.5 },
{ "CONT|LI:NC2C:0/5/53/a<=1h", 13.5 },
{ "CONT|LI:NC2C:0/5/53/a<=1n", 13 },
{ "CONT|LI:NC2C:0/5/53/a<=4", 14 },
{ "CONT|LI:NC2C:0/5/53/a<=4h", 15.2 },
{ "CONT|LI:NC2C:0/5/53/a<=4n", 14.3 },
{ "CONT|LI:NC2C:0/5/53/a>1e+10", 25 },
{ "CONT|LI:NC2C:0/5/53/r<=0.25", 12.9 },
{ "CONT|LI:NC2C:0/5/53/r<=0.75", 12.9 },
{ "CONT|LI:NC2C:0/5/53/r<=0.75n", 13.3 },
{ "CONT|LI:NC2C:0/5/53/r<=1", 13.1 },
{ "CONT|LI:NC2C:0/5/53/r<=1.4", 12.9 },
{ "CONT|LI:NC2C:0/5/53/r<=1.4n", 12.7 },
{ "CONT|LI:NC2C:0/5/53/r<=1e+10", 15.7 },
{ "CONT|LI:NC2C:0/5/53/r<=1n", 12.3 },
{ "CONT|LI:NC2C:0/5/53/r<=4", 13.1 },
{ "CONT|LI:NC2C:0/5/53/r<=4h", 13.1 },
{ "CONT|LI:NC2C:0/5/53/r<=4n", 12.6 },
{ "CONT|LI:NC2C:0/5/53/r>1e+10", 20.9 },
{ "CONT|LI:NC2C:0/6/53/a<=0.25", 13.3 },
{ "CONT|LI:NC2C:0/6/53/a<=0.75", 13.4 },
{ "CONT|LI:NC2C:0/6/53/a<=0.75n", 13.7 },
{ "CONT|LI:NC2C:0/6/53/a<=1", 14.3 },
{ "CONT|LI:NC2C:0/6/53/a<=1.4", 15.4 },
{ "CONT|LI:NC2C:0/6/53/a<=1.4h", 18.3 },
{ "CONT|LI:NC2C:0/6/53/a<=1.4n", 13 },
{ "CONT|LI:NC2C:0/6/53/a<=1e+10", 18.2 },
{ "CONT|LI:NC2C:0/6/53/a<=1h", 13.7 },
{ "CONT|LI:NC2C:0/6/53/a<=1n", 12.8 },
{ "CONT|LI:NC2C:0/6/53/a<=4", 13.9 },
{ "CONT|LI:NC2C:0/6/53/a<=4h", 14.7 },
{ "CONT|LI:NC2C:0/6/53/a<=4n", 13.8 },
{ "CONT|LI:NC2C:0/6/53/a>1e+10", 34.3 },
{ "CONT|LI:NC2C:0/6/53/r<=0.25", 12.7 },
{ "CONT|LI:NC2C:0/6/53/r<=0.75", 13 },
{ "CONT|LI:NC2C:0/6/53/r<=0.75n", 12.7 },
{ "CONT|LI:NC2C:0/6/53/r<=1", 12.8 },
{ "CONT|LI:NC2C:0/6/53/r<=1.4", 13.3 },
{ "CONT|LI:NC2C:0/6/53/r<=1.4n", 12.5 },
{ "CONT|LI:NC2C:0/6/53/r<=1e+10", 17 },
{ "CONT|LI:NC2C:0/6/53/r<=1n", 12.6 },
{ "CONT|LI:NC2C:0/6/53/r<=4", 13 },
{ "CONT|LI:NC2C:0/6/53/r<=4h", 13.1 },
{ "CONT|LI:NC2C:0/6/53/r<=4n", 12.5 },
{ "CONT|LI:NC2C:0/6/53/r>1e+10", 24.2 },
{ "CONT|LI:NC2C:0/7-29/53/a<=0.25", 6.3 },
{ "CONT|LI:NC2C:0/7-29/53/a<=0.75", 11 },
{ "CONT|LI:NC2C:0/7-29/53/a<=0.75n", 7.66 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1", 36.5 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1.4", 20.5 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1.4h", 7.47 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1.4n", 9.65 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1e+10", 7.47 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1h", 13.1 },
{ "CONT|LI:NC2C:0/7-29/53/a<=1n", 7.65 },
{ "CONT|LI:NC2C:0/7-29/53/a<=4", 8 },
{ "CONT|LI:NC2C:0/7-29/53/a<=4h", 8.59 },
{ "CONT|LI:NC2C:0/7-29/53/a<=4n", 12.2 },
{ "CONT|LI:NC2C:0/7-29/53/a>1e+10", 7.17 },
{ "CONT|LI:NC2C:0/7-29/53/r<=0.25", 6.3 },
{ "CONT|LI:NC2C:0/7-29/53/r<=0.75", 15.7 },
{ "CONT|LI:NC2C:0/7-29/53/r<=0.75n", 13.7 },
{ "CONT|LI:NC2C:0/7-29/53/r<=1", 26 },
{ "CONT|LI:NC2C:0/7-29/53/r<=1.4", 31.8 },
{ "CONT|LI:NC2C:0/7-29/53/r<=1.4n", 12.8 },
{ "CONT|LI:NC2C:0/7-29/53/r<=1e+10", 12.9 },
{ "CONT|LI:NC2C:0/7-29/53/r<=1n", 12.3 },
{ "CONT|LI:NC2C:0/7-29/53/r<=4", 13 },
{ "CONT|LI:NC2C:0/7-29/53/r<=4h", 13.4 },
{ "CONT|LI:NC2C:0/7-29/53/r<=4n", 14.8 },
{ "CONT|LI:NC2C:0/7-29/53/r>1e+10", 12.5 },
{ "CONT|LI:R2R:2//24/x<=-1", 8.31 },
{ "CONT|LI:R2R:2//24/x<=0", 7.74 },
{ "CONT|LI:R2R:2//24/x<=0.5", 7.93 },
{ "CONT|LI:R2R:2//24/x<=0.6", 8.56 },
{ "CONT|LI:R2R:2//24/x<=0.7", 7.34 },
{ "CONT|LI:R2R:2//24/x<=0.8", 6.86 },
{ "CONT|LI:R2R:2//24/x<=1", 6.57 },
{ "CONT|LI:R2R:2//24/x<=1.25", 6.5 },
{ "CONT|LI:R2R:2//24/x<=1.4", 6.67 },
{ "CONT|LI:R2R:2//24/x<=1.6", 6.61 },
{ "CONT|LI:R2R:2//24/x<=1.8", 6.3 },
{ "CONT|LI:R2R:2//24/x<=2", 6.62 },
{ "CONT|LI:R2R:2//24/x>2", 8.41 },
{ "CONT|LI:R2R:2//53/x<=-1", 14.9 },
{ "CONT|LI:R2R:2//53/x<=0", 14.4 },
{ "CONT|LI:R2R:2//53/x<=0.5", 17.4 },
{ "CONT|LI:R2R:2//53/x<=0.6", 22.1 },
{ "CONT|LI:R2R:2//53/x<=0.7", 7.96 },
{ "CONT|LI:R2R:2//53/x<=0.8", 7.01 },
{ "CONT|LI:R2R:2//53/x<=1", 6.65 },
{ "CONT|LI:R2R:2//53/x<=1.25", 6.5 },
{ "CONT|LI:R2R:2//53/x<=1.4", 6.57 },
{ "CONT|LI:R2R:2//53/x<=1.6", 6.61 },
{ "CONT|LI:R2R:2//53/x<=1.8", 6.9 },
{ "CONT|LI:R2R:2//53/x<=2", 7.25 },
{ "CONT|LI:R2R:2//53/x>2", 8.78 },
{ "CONT|LI:R2R:2//64/x<=-1", 9.25 },
{ "CONT|LI:R2R:2//64/x<=0", 8.54 },
{ "CONT|LI:R2R:2//64/x<=0.5", 9.5 },
{ "CONT|LI:R2R:2//64/x<=0.6", 9.61 },
{ "CONT|LI:R2R:2//64/x<=0.7", 7.31 },
{ "CONT|LI:R2R:2//64/x<=0.8", 6.87 },
{ "CONT|LI:R2R:2//64/x<=1", 6.74 },
{ "CONT|LI:R2R:2//64/x<=1.25", 6.5 },
{ "CONT|LI:R2R:2//64/x<=1.4", 6.57 },
{ "CONT|LI:R2R:2//64/x<=1.6", 6.61 },
{ "CONT|LI:R2R:2//64/x<=1.8", 6.62 },
{ "CONT|LI:R2R:2//64/x<=2", 6.62 },
{ "CONT|LI:R2R:2//64/x>2", 8.15 },
{ "CONT|LI:R2R:3//53/x<=-1", 9.67 },
{ "CONT|LI:R2R:3//53/x<=0", 7.66 },
{ "CONT|LI:R2R:3//53/x<=0.5", 13.7 },
{ "CONT|LI:R2R:3//53/x<=0.6", 22 },
{ "CONT|LI:R2R:3//53/x<=0.7", 9.78 },
{ "CONT|LI:R2R:3//53/x<=0.8", 7.4 },
{ "CONT|LI:R2R:3//53/x<=1", 6.96 },
{ "CONT|LI:R2R:3//53/x<=1.25", 6.59 },
{ "CONT|LI:R2R:3//53/x<=1.4", 6.57 },
{ "CONT|LI:R2R:3//53/x<=1.6", 6.69 },
{ "CONT|LI:R2R:3//53/x<=1.8", 7.06 },
{ "CONT|LI:R2R:3//53/x<=2", 7.37 },
{ "CONT|LI:R2R:3//53/x>2", 10.7 },
{ "CONT|LI:R2R:4//53/x<=-1", 11.8 },
{ "CONT|LI:R2R:4//53/x<=0", 7.79 },
{ "CONT|LI:R2R:4//53/x<=0.5", 10.3 },
{ "CONT|LI:R2R:4//53/x<=0.6", 41.2 },
{ "CONT|LI:R2R:4//53/x<=0.7", 112 },
{ "CONT|LI:R2R:4//53/x<=0.8", 341 },
{ "CONT|LI:R2R:4//53/x<=1", 104 },
{ "CONT|LI:R2R:4//53/x<=1.25", 18.6 },
{ "CONT|LI:R2R:4//53/x<=1.4", 164 },
{ "CONT|LI:R2R:4//53/x<=1.6", 69 },
{ "CONT|LI:R2R:4//53/x<=1.8", 15.5 },
{ "CONT|LI:R2R:4//53/x<=2", 8.24 },
{ "CONT|LI:R2R:4//53/x>2", 11.8 },
{ "CONT|SL:NR2R:0/1/53/t<=0.1", 12.6 },
{ "CONT|SL:NR2R:0/1/53/t<=0.5", 12.6 },
{ "CONT|SL:NR2R:0/1/53/t<=1", 12.5 },
{ "CONT|SL:NR2R:0/1/53/t<=1.3", 12.3 },
{ "CONT|SL:NR2R:0/1/53/t<=1.5", 12 },
{ "CONT|SL:NR2R:0/1/53/t<=1.64", 6 },
{ "CONT|SL:NR2R:0/1/53/t<=1.8", 12 },
{ "CONT|SL:NR2R:0/1/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/1/53/t<=2.1", 12 },
{ "CONT|SL:NR2R:0/1/53/t<=2.6", 6 },
{ "CONT|SL:NR2R:0/1/53/t<=2.95", 6 },
{ "CONT|SL:NR2R:0/1/53/t<=3.1", 6 },
{ "CONT|SL:NR2R:0/1/53/t<=3.141", 6 },
{ "CONT|SL:NR2R:0/1/53/t>3.141", 6 },
{ "CONT|SL:NR2R:0/1/53/u<=0.1", 6 },
{ "CONT|SL:NR2R:0/1/53/u<=0.5", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=1", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=1.3", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=1.5", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=1.64", 6 },
{ "CONT|SL:NR2R:0/1/53/u<=1.8", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=1e-06", 6 },
{ "CONT|SL:NR2R:0/1/53/u<=2.1", 12.2 },
{ "CONT|SL:NR2R:0/1/53/u<=2.6", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=2.95", 12 },
{ "CONT|SL:NR2R:0/1/53/u<=3.1", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=0.1", 6 },
{ "CONT|SL:NR2R:0/1/53/v<=0.5", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1.3", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1.5", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1.64", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1.8", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=1e-06", 6 },
{ "CONT|SL:NR2R:0/1/53/v<=2.1", 12.1 },
{ "CONT|SL:NR2R:0/1/53/v<=2.6", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=2.95", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=3.1", 12 },
{ "CONT|SL:NR2R:0/1/53/v<=3.141", 6 },
{ "CONT|SL:NR2R:0/1/53/v>3.141", 12 },
{ "CONT|SL:NR2R:0/2/53/t<=0.1", 12.6 },
{ "CONT|SL:NR2R:0/2/53/t<=0.5", 12.8 },
{ "CONT|SL:NR2R:0/2/53/t<=1", 12.9 },
{ "CONT|SL:NR2R:0/2/53/t<=1.3", 13 },
{ "CONT|SL:NR2R:0/2/53/t<=1.5", 13.1 },
{ "CONT|SL:NR2R:0/2/53/t<=1.64", 13.2 },
{ "CONT|SL:NR2R:0/2/53/t<=1.8", 13.3 },
{ "CONT|SL:NR2R:0/2/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/2/53/t<=2.1", 13.8 },
{ "CONT|SL:NR2R:0/2/53/t<=2.6", 13.9 },
{ "CONT|SL:NR2R:0/2/53/t<=2.95", 13.6 },
{ "CONT|SL:NR2R:0/2/53/t<=3.1", 14 },
{ "CONT|SL:NR2R:0/2/53/t<=3.141", 14.3 },
{ "CONT|SL:NR2R:0/2/53/t>3.141", 7.56 },
{ "CONT|SL:NR2R:0/2/53/u<=0.1", 12.1 },
{ "CONT|SL:NR2R:0/2/53/u<=0.5", 12.1 },
{ "CONT|SL:NR2R:0/2/53/u<=1", 12.1 },
{ "CONT|SL:NR2R:0/2/53/u<=1.3", 12.2 },
{ "CONT|SL:NR2R:0/2/53/u<=1.5", 12.2 },
{ "CONT|SL:NR2R:0/2/53/u<=1.64", 12.2 },
{ "CONT|SL:NR2R:0/2/53/u<=1.8", 12.4 },
{ "CONT|SL:NR2R:0/2/53/u<=1e-06", 12.3 },
{ "CONT|SL:NR2R:0/2/53/u<=2.1", 13.4 },
{ "CONT|SL:NR2R:0/2/53/u<=2.6", 13.6 },
{ "CONT|SL:NR2R:0/2/53/u<=2.95", 13.6 },
{ "CONT|SL:NR2R:0/2/53/u<=3.1", 14 },
{ "CONT|SL:NR2R:0/2/53/v<=0.1", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=0.5", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1.3", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1.5", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1.64", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1.8", 12.1 },
{ "CONT|SL:NR2R:0/2/53/v<=1e-06", 12.4 },
{ "CONT|SL:NR2R:0/2/53/v<=2.1", 12.4 },
{ "CONT|SL:NR2R:0/2/53/v<=2.6", 12.4 },
{ "CONT|SL:NR2R:0/2/53/v<=2.95", 12.9 },
{ "CONT|SL:NR2R:0/2/53/v<=3.1", 13.8 },
{ "CONT|SL:NR2R:0/2/53/v<=3.141", 14.1 },
{ "CONT|SL:NR2R:0/2/53/v>3.141", 14 },
{ "CONT|SL:NR2R:0/200+/53/t<=0.1", 6.49 },
{ "CONT|SL:NR2R:0/200+/53/t<=0.5", 6.49 },
{ "CONT|SL:NR2R:0/200+/53/t<=1", 6.39 },
{ "CONT|SL:NR2R:0/200+/53/t<=1.3", 6.36 },
{ "CONT|SL:NR2R:0/200+/53/t<=1.5", 6.4 },
{ "CONT|SL:NR2R:0/200+/53/t<=1.64", 6.49 },
{ "CONT|SL:NR2R:0/200+/53/t<=1.8", 6.39 },
{ "CONT|SL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/200+/53/t<=2.1", 6.3 },
{ "CONT|SL:NR2R:0/200+/53/t<=2.6", 6.25 },
{ "CONT|SL:NR2R:0/200+/53/t<=2.95", 6.29 },
{ "CONT|SL:NR2R:0/200+/53/t<=3.1", 6.37 },
{ "CONT|SL:NR2R:0/200+/53/t<=3.141", 12.5 },
{ "CONT|SL:NR2R:0/200+/53/t>3.141", 6.5 },
{ "CONT|SL:NR2R:0/200+/53/u<=0.1", 12.4 },
{ "CONT|SL:NR2R:0/200+/53/u<=0.5", 6.27 },
{ "CONT|SL:NR2R:0/200+/53/u<=1", 6.13 },
{ "CONT|SL:NR2R:0/200+/53/u<=1.3", 6.19 },
{ "CONT|SL:NR2R:0/200+/53/u<=1.5", 12.3 },
{ "CONT|SL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "CONT|SL:NR2R:0/200+/53/u<=1.8", 12.3 },
{ "CONT|SL:NR2R:0/200+/53/u<=1e-06", 6.18 },
{ "CONT|SL:NR2R:0/200+/53/u<=2.1", 6.23 },
{ "CONT|SL:NR2R:0/200+/53/u<=2.6", 6.17 },
{ "CONT|SL:NR2R:0/200+/53/u<=2.95", 6.27 },
{ "CONT|SL:NR2R:0/200+/53/u<=3.1", 12.4 },
{ "CONT|SL:NR2R:0/200+/53/v<=0.1", 6.49 },
{ "CONT|SL:NR2R:0/200+/53/v<=0.5", 6.22 },
{ "CONT|SL:NR2R:0/200+/53/v<=1", 6.27 },
{ "CONT|SL:NR2R:0/200+/53/v<=1.3", 6.15 },
{ "CONT|SL:NR2R:0/200+/53/v<=1.5", 6.25 },
{ "CONT|SL:NR2R:0/200+/53/v<=1.64", 6.49 },
{ "CONT|SL:NR2R:0/200+/53/v<=1.8", 6.22 },
{ "CONT|SL:NR2R:0/200+/53/v<=1e-06", 6.5 },
{ "CONT|SL:NR2R:0/200+/53/v<=2.1", 6.2 },
{ "CONT|SL:NR2R:0/200+/53/v<=2.6", 6.09 },
{ "CONT|SL:NR2R:0/200+/53/v<=2.95", 6.22 },
{ "CONT|SL:NR2R:0/200+/53/v<=3.1", 6.28 },
{ "CONT|SL:NR2R:0/200+/53/v<=3.141", 12.5 },
{ "CONT|SL:NR2R:0/200+/53/v>3.141", 6.48 },
{ "CONT|SL:NR2R:0/3/53/t<=0.1", 12.4 },
{ "CONT|SL:NR2R:0/3/53/t<=0.5", 12.8 },
{ "CONT|SL:NR2R:0/3/53/t<=1", 13 },
{ "CONT|SL:NR2R:0/3/53/t<=1.3", 12.9 },
{ "CONT|SL:NR2R:0/3/53/t<=1.5", 13.2 },
{ "CONT|SL:NR2R:0/3/53/t<=1.64", 13.8 },
{ "CONT|SL:NR2R:0/3/53/t<=1.8", 13.6 },
{ "CONT|SL:NR2R:0/3/53/t<=1e-06", 12.3 },
{ "CONT|SL:NR2R:0/3/53/t<=2.1", 13.7 },
{ "CONT|SL:NR2R:0/3/53/t<=2.6", 14.1 },
{ "CONT|SL:NR2R:0/3/53/t<=2.95", 14.5 },
{ "CONT|SL:NR2R:0/3/53/t<=3.1", 13.7 },
{ "CONT|SL:NR2R:0/3/53/t<=3.141", 13.8 },
{ "CONT|SL:NR2R:0/3/53/t>3.141", 15 },
{ "CONT|SL:NR2R:0/3/53/u<=0.1", 12 },
{ "CONT|SL:NR2R:0/3/53/u<=0.5", 12.1 },
{ "CONT|SL:NR2R:0/3/53/u<=1", 12.3 },
{ "CONT|SL:NR2R:0/3/53/u<=1.3", 12.5 },
{ "CONT|SL:NR2R:0/3/53/u<=1.5", 13.4 },
{ "CONT|SL:NR2R:0/3/53/u<=1.64", 12.9 },
{ "CONT|SL:NR2R:0/3/53/u<=1.8", 12.8 },
{ "CONT|SL:NR2R:0/3/53/u<=1e-06", 12.2 },
{ "CONT|SL:NR2R:0/3/53/u<=2.1", 13 },
{ "CONT|SL:NR2R:0/3/53/u<=2.6", 13.5 },
{ "CONT|SL:NR2R:0/3/53/u<=2.95", 14.3 },
{ "CONT|SL:NR2R:0/3/53/u<=3.1", 14.7 },
{ "CONT|SL:NR2R:0/3/53/v<=0.1", 12 },
{ "CONT|SL:NR2R:0/3/53/v<=0.5", 12.4 },
{ "CONT|SL:NR2R:0/3/53/v<=1", 12.2 },
{ "CONT|SL:NR2R:0/3/53/v<=1.3", 12.6 },
{ "CONT|SL:NR2R:0/3/53/v<=1.5", 12.8 },
{ "CONT|SL:NR2R:0/3/53/v<=1.64", 12.6 },
{ "CONT|SL:NR2R:0/3/53/v<=1.8", 12.6 },
{ "CONT|SL:NR2R:0/3/53/v<=1e-06", 12.1 },
{ "CONT|SL:NR2R:0/3/53/v<=2.1", 12.5 },
{ "CONT|SL:NR2R:0/3/53/v<=2.6", 12.4 },
{ "CONT|SL:NR2R:0/3/53/v<=2.95", 12.4 },
{ "CONT|SL:NR2R:0/3/53/v<=3.1", 12.3 },
{ "CONT|SL:NR2R:0/3/53/v<=3.141", 12.4 },
{ "CONT|SL:NR2R:0/3/53/v>3.141", 12.7 },
{ "CONT|SL:NR2R:0/30-199/53/t<=0.1", 6.5 },
{ "CONT|SL:NR2R:0/30-199/53/t<=0.5", 6.49 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1", 6.4 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1.3", 6.35 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1.5", 6.39 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1.64", 6.5 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1.8", 6.39 },
{ "CONT|SL:NR2R:0/30-199/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/30-199/53/t<=2.1", 6.26 },
{ "CONT|SL:NR2R:0/30-199/53/t<=2.6", 6.25 },
{ "CONT|SL:NR2R:0/30-199/53/t<=2.95", 6.28 },
{ "CONT|SL:NR2R:0/30-199/53/t<=3.1", 6.37 },
{ "CONT|SL:NR2R:0/30-199/53/t<=3.141", 12.5 },
{ "CONT|SL:NR2R:0/30-199/53/t>3.141", 6 },
{ "CONT|SL:NR2R:0/30-199/53/u<=0.1", 12.5 },
{ "CONT|SL:NR2R:0/30-199/53/u<=0.5", 6.25 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1", 6.13 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1.3", 6.19 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1.5", 12.3 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1.64", 6.48 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1.8", 12.3 },
{ "CONT|SL:NR2R:0/30-199/53/u<=1e-06", 6.18 },
{ "CONT|SL:NR2R:0/30-199/53/u<=2.1", 6.23 },
{ "CONT|SL:NR2R:0/30-199/53/u<=2.6", 6.16 },
{ "CONT|SL:NR2R:0/30-199/53/u<=2.95", 6.26 },
{ "CONT|SL:NR2R:0/30-199/53/u<=3.1", 12.3 },
{ "CONT|SL:NR2R:0/30-199/53/v<=0.1", 6.5 },
{ "CONT|SL:NR2R:0/30-199/53/v<=0.5", 6.19 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1", 6.2 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1.3", 6.16 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1.5", 6.21 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1.64", 6.49 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1.8", 6.24 },
{ "CONT|SL:NR2R:0/30-199/53/v<=1e-06", 6.09 },
{ "CONT|SL:NR2R:0/30-199/53/v<=2.1", 6.16 },
{ "CONT|SL:NR2R:0/30-199/53/v<=2.6", 6.22 },
{ "CONT|SL:NR2R:0/30-199/53/v<=2.95", 6.15 },
{ "CONT|SL:NR2R:0/30-199/53/v<=3.1", 6.31 },
{ "CONT|SL:NR2R:0/30-199/53/v<=3.141", 12.5 },
{ "CONT|SL:NR2R:0/30-199/53/v>3.141", 6.5 },
{ "CONT|SL:NR2R:0/4/53/t<=0.1", 6 },
{ "CONT|SL:NR2R:0/4/53/t<=0.5", 12.9 },
{ "CONT|SL:NR2R:0/4/53/t<=1", 12.6 },
{ "CONT|SL:NR2R:0/4/53/t<=1.3", 13 },
{ "CONT|SL:NR2R:0/4/53/t<=1.5", 13 },
{ "CONT|SL:NR2R:0/4/53/t<=1.64", 12.7 },
{ "CONT|SL:NR2R:0/4/53/t<=1.8", 12.7 },
{ "CONT|SL:NR2R:0/4/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/4/53/t<=2.1", 13.2 },
{ "CONT|SL:NR2R:0/4/53/t<=2.6", 13.7 },
{ "CONT|SL:NR2R:0/4/53/t<=2.95", 23.7 },
{ "CONT|SL:NR2R:0/4/53/t<=3.1", 34.6 },
{ "CONT|SL:NR2R:0/4/53/t<=3.141", 40.1 },
{ "CONT|SL:NR2R:0/4/53/t>3.141", 39.1 },
{ "CONT|SL:NR2R:0/4/53/u<=0.1", 12.9 },
{ "CONT|SL:NR2R:0/4/53/u<=0.5", 12.4 },
{ "CONT|SL:NR2R:0/4/53/u<=1", 12.2 },
{ "CONT|SL:NR2R:0/4/53/u<=1.3", 12.2 },
{ "CONT|SL:NR2R:0/4/53/u<=1.5", 12.2 },
{ "CONT|SL:NR2R:0/4/53/u<=1.64", 12.3 },
{ "CONT|SL:NR2R:0/4/53/u<=1.8", 12.5 },
{ "CONT|SL:NR2R:0/4/53/u<=1e-06", 6 },
{ "CONT|SL:NR2R:0/4/53/u<=2.1", 12.5 },
{ "CONT|SL:NR2R:0/4/53/u<=2.6", 13.6 },
{ "CONT|SL:NR2R:0/4/53/u<=2.95", 21.7 },
{ "CONT|SL:NR2R:0/4/53/u<=3.1", 31.8 },
{ "CONT|SL:NR2R:0/4/53/v<=0.1", 12.9 },
{ "CONT|SL:NR2R:0/4/53/v<=0.5", 12.3 },
{ "CONT|SL:NR2R:0/4/53/v<=1", 12.1 },
{ "CONT|SL:NR2R:0/4/53/v<=1.3", 12.2 },
{ "CONT|SL:NR2R:0/4/53/v<=1.5", 12.2 },
{ "CONT|SL:NR2R:0/4/53/v<=1.64", 12.3 },
{ "CONT|SL:NR2R:0/4/53/v<=1.8", 12.2 },
{ "CONT|SL:NR2R:0/4/53/v<=1e-06", 6 },
{ "CONT|SL:NR2R:0/4/53/v<=2.1", 12.3 },
{ "CONT|SL:NR2R:0/4/53/v<=2.6", 12.5 },
{ "CONT|SL:NR2R:0/4/53/v<=2.95", 14.8 },
{ "CONT|SL:NR2R:0/4/53/v<=3.1", 24.8 },
{ "CONT|SL:NR2R:0/4/53/v<=3.141", 37.9 },
{ "CONT|SL:NR2R:0/4/53/v>3.141", 40.5 },
{ "CONT|SL:NR2R:0/5/53/t<=0.1", 12.4 },
{ "CONT|SL:NR2R:0/5/53/t<=0.5", 12.4 },
{ "CONT|SL:NR2R:0/5/53/t<=1", 12.6 },
{ "CONT|SL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "CONT|SL:NR2R:0/5/53/t<=1.5", 13.4 },
{ "CONT|SL:NR2R:0/5/53/t<=1.64", 13.3 },
{ "CONT|SL:NR2R:0/5/53/t<=1.8", 13.2 },
{ "CONT|SL:NR2R:0/5/53/t<=1e-06", 12.4 },
{ "CONT|SL:NR2R:0/5/53/t<=2.1", 13.3 },
{ "CONT|SL:NR2R:0/5/53/t<=2.6", 13.3 },
{ "CONT|SL:NR2R:0/5/53/t<=2.95", 13.8 },
{ "CONT|SL:NR2R:0/5/53/t<=3.1", 14.2 },
{ "CONT|SL:NR2R:0/5/53/t<=3.141", 13.5 },
{ "CONT|SL:NR2R:0/5/53/t>3.141", 15.6 },
{ "CONT|SL:NR2R:0/5/53/u<=0.1", 12 },
{ "CONT|SL:NR2R:0/5/53/u<=0.5", 12.1 },
{ "CONT|SL:NR2R:0/5/53/u<=1", 12.2 },
{ "CONT|SL:NR2R:0/5/53/u<=1.3", 12.6 },
{ "CONT|SL:NR2R:0/5/53/u<=1.5", 12.9 },
{ "CONT|SL:NR2R:0/5/53/u<=1.64", 13.2 },
{ "CONT|SL:NR2R:0/5/53/u<=1.8", 12.9 },
{ "CONT|SL:NR2R:0/5/53/u<=1e-06", 12.2 },
{ "CONT|SL:NR2R:0/5/53/u<=2.1", 13 },
{ "CONT|SL:NR2R:0/5/53/u<=2.6", 13 },
{ "CONT|SL:NR2R:0/5/53/u<=2.95", 13.6 },
{ "CONT|SL:NR2R:0/5/53/u<=3.1", 13.8 },
{ "CONT|SL:NR2R:0/5/53/v<=0.1", 12 },
{ "CONT|SL:NR2R:0/5/53/v<=0.5", 12.1 },
{ "CONT|SL:NR2R:0/5/53/v<=1", 12.2 },
{ "CONT|SL:NR2R:0/5/53/v<=1.3", 12.3 },
{ "CONT|SL:NR2R:0/5/53/v<=1.5", 12.9 },
{ "CONT|SL:NR2R:0/5/53/v<=1.64", 13 },
{ "CONT|SL:NR2R:0/5/53/v<=1.8", 12.7 },
{ "CONT|SL:NR2R:0/5/53/v<=1e-06", 12.1 },
{ "CONT|SL:NR2R:0/5/53/v<=2.1", 12.5 },
{ "CONT|SL:NR2R:0/5/53/v<=2.6", 12.5 },
{ "CONT|SL:NR2R:0/5/53/v<=2.95", 12.4 },
{ "CONT|SL:NR2R:0/5/53/v<=3.1", 12.5 },
{ "CONT|SL:NR2R:0/5/53/v<=3.141", 12.5 },
{ "CONT|SL:NR2R:0/5/53/v>3.141", 13.3 },
{ "CONT|SL:NR2R:0/6/53/t<=0.1", 6 },
{ "CONT|SL:NR2R:0/6/53/t<=0.5", 13 },
{ "CONT|SL:NR2R:0/6/53/t<=1", 12.6 },
{ "CONT|SL:NR2R:0/6/53/t<=1.3", 12.6 },
{ "CONT|SL:NR2R:0/6/53/t<=1.5", 12.6 },
{ "CONT|SL:NR2R:0/6/53/t<=1.64", 12.7 },
{ "CONT|SL:NR2R:0/6/53/t<=1.8", 12.6 },
{ "CONT|SL:NR2R:0/6/53/t<=1e-06", 6 },
{ "CONT|SL:NR2R:0/6/53/t<=2.1", 13.1 },
{ "CONT|SL:NR2R:0/6/53/t<=2.6", 13.4 },
{ "CONT|SL:NR2R:0/6/53/t<=2.95", 13.7 },
{ "CONT|SL:NR2R:0/6/53/t<=3.1", 15.5 },
{ "CONT|SL:NR2R:0/6/53/t<=3.141", 24.1 },
{ "CONT|SL:NR2R:0/6/53/t>3.141", 19.8 },
{ "CONT|SL:NR2R:0/6/53/u<=0.1", 12.8 },
{ "CONT|SL:NR2R:0/6/53/u<=0.5", 12.3 },
{ "CONT|SL:NR2R:0/6/53/u<=1", 12.2 },
{ "CONT|SL:NR2R:0/6/53/u<=1.3", 12.1 },
{ "CONT|SL:NR2R:0/6/53/u<=1.5", 12.2 },
{ "CONT|SL:NR2R:0/6/53/u<=1.64", 12.2 },
{ "CONT|SL:NR2R:0/6/53/u<=1.8", 12.3 },
{ "CONT|SL:NR2R:0/6/53/u<=1e-06", 6 },
{ "CONT|SL:NR2R:0/6/53/u<=2.1", 12.5 },
{ "CONT|SL:NR2R:0/6/53/u<=2.6", 13.1 },
{ "CONT|SL:NR2R:0/6/53/u<=2.95", 13.7 },
{ "CONT|SL:NR2R:0/6/53/u<=3.1", 15.6 },
{ "CONT|SL:NR2R:0/6/53/v<=0.1", 13 },
{ "CONT|SL:NR2R:0/6/53/v<=0.5", 12.3 },
{ "CONT|SL:NR2R:0/6/53/v<=1", 12.1 },
{ "CONT|SL:NR2R:0/6/53/v<=1.3", 12.1 },
{ "CONT|SL:NR2R:0/6/53/v<=1.5", 12.1 },
{ "CONT|SL:NR2R:0/6/53/v<=1.64", 12.1 },
{ "CONT|SL:NR2R:0/6/53/v<=1.8", 12.1 },
{ "CONT|SL:NR2R:0/6/53/v<=1e-06", 6 },
{ "CONT|SL:NR2R:0/6/53/v<=2.1", 12.2 },
{ "CONT|SL:NR2R:0/6/53/v<=2.6", 12.4 },
{ "CONT|SL:NR2R:0/6/53/v<=2.95", 13.3 },
{ "CONT|SL:NR2R:0/6/53/v<=3.1", 14.3 },
{ "CONT|SL:NR2R:0/6/53/v<=3.141", 23.7 },
{ "CONT|SL:NR2R:0/6/53/v>3.141", 24.4 },
{ "CONT|SL:NR2R:0/7-29/53/t<=0.1", 7 },
{ "CONT|SL:NR2R:0/7-29/53/t<=0.5", 6.49 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1", 6.67 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1.3", 6.9 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1.5", 7.14 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1.64", 7.5 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1.8", 7.34 },
{ "CONT|SL:NR2R:0/7-29/53/t<=1e-06", 6.48 },
{ "CONT|SL:NR2R:0/7-29/53/t<=2.1", 7.33 },
{ "CONT|SL:NR2R:0/7-29/53/t<=2.6", 7.4 },
{ "CONT|SL:NR2R:0/7-29/53/t<=2.95", 8.94 },
{ "CONT|SL:NR2R:0/7-29/53/t<=3.1", 12.1 },
{ "CONT|SL:NR2R:0/7-29/53/t<=3.141", 23.9 },
{ "CONT|SL:NR2R:0/7-29/53/t>3.141", 12 },
{ "CONT|SL:NR2R:0/7-29/53/u<=0.1", 7 },
{ "CONT|SL:NR2R:0/7-29/53/u<=0.5", 6.24 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1", 6.21 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1.3", 6.43 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1.5", 6.97 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1.64", 7.5 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1.8", 7.18 },
{ "CONT|SL:NR2R:0/7-29/53/u<=1e-06", 6.18 },
{ "CONT|SL:NR2R:0/7-29/53/u<=2.1", 7.06 },
{ "CONT|SL:NR2R:0/7-29/53/u<=2.6", 7.09 },
{ "CONT|SL:NR2R:0/7-29/53/u<=2.95", 8.37 },
{ "CONT|SL:NR2R:0/7-29/53/u<=3.1", 16 },
{ "CONT|SL:NR2R:0/7-29/53/v<=0.1", 7 },
{ "CONT|SL:NR2R:0/7-29/53/v<=0.5", 6.29 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1", 6.16 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1.3", 6.33 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1.5", 6.83 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1.64", 7.99 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1.8", 6.75 },
{ "CONT|SL:NR2R:0/7-29/53/v<=1e-06", 6.09 },
{ "CONT|SL:NR2R:0/7-29/53/v<=2.1", 6.5 },
{ "CONT|SL:NR2R:0/7-29/53/v<=2.6", 6.45 },
{ "CONT|SL:NR2R:0/7-29/53/v<=2.95", 7.18 },
{ "CONT|SL:NR2R:0/7-29/53/v<=3.1", 8.04 },
{ "CONT|SL:NR2R:0/7-29/53/v<=3.141", 12 },
{ "CONT|SL:NR2R:0/7-29/53/v>3.141", 18.1 },
{ "CUTOFF|LI:C2C:2//24", 9.08 },
{ "CUTOFF|LI:C2C:2//24/a<=1.4n", 11.2 },
{ "CUTOFF|LI:C2C:2//24/a<=1e+10", 9.97 },
{ "CUTOFF|LI:C2C:2//24/a<=4h", 11.5 },
{ "CUTOFF|LI:C2C:2//24/a<=4n", 9.46 },
{ "CUTOFF|LI:C2C:2//24/a>1e+10", 9.88 },
{ "CUTOFF|LI:C2C:2//53", 8.12 },
{ "CUTOFF|LI:C2C:2//53/a<=1.4n", 9.57 },
{ "CUTOFF|LI:C2C:2//53/a<=1e+10", 9.25 },
{ "CUTOFF|LI:C2C:2//53/a<=4h", 9.12 },
{ "CUTOFF|LI:C2C:2//53/a<=4n", 9.12 },
{ "CUTOFF|LI:C2C:2//53/a>1e+10", 10.3 },
{ "CUTOFF|LI:C2C:2//64/a<=1.4n", 9.49 },
{ "CUTOFF|LI:C2C:2//64/a<=1e+10", 8.99 },
{ "CUTOFF|LI:C2C:2//64/a<=4h", 9.56 },
{ "CUTOFF|LI:C2C:2//64/a<=4n", 8.26 },
{ "CUTOFF|LI:C2C:2//64/a>1e+10", 9.86 },
{ "CUTOFF|LI:C2C:3//53", 10.9 },
{ "CUTOFF|LI:C2C:3//53/a<=1.4n", 25.3 },
{ "CUTOFF|LI:C2C:3//53/a<=1e+10", 13.6 },
{ "CUTOFF|LI:C2C:3//53/a<=4h", 13.6 },
{ "CUTOFF|LI:C2C:3//53/a<=4n", 13.6 },
{ "CUTOFF|LI:C2C:3//53/a>1e+10", 13.7 },
{ "CUTOFF|LI:C2C:3//64/a<=1.4n", 7.78 },
{ "CUTOFF|LI:C2C:3//64/a<=1e+10", 11.3 },
{ "CUTOFF|LI:C2C:3//64/a<=4h", 9.83 },
{ "CUTOFF|LI:C2C:3//64/a<=4n", 7.13 },
{ "CUTOFF|LI:C2C:3//64/a>1e+10", 14 },
{ "CUTOFF|LI:C2C:4//53", 170 },
{ "CUTOFF|LI:C2C:4//53/a<=1.4n", 212 },
{ "CUTOFF|LI:C2C:4//53/a<=1e+10", 212 },
{ "CUTOFF|LI:C2C:4//53/a<=4h", 212 },
{ "CUTOFF|LI:C2C:4//53/a<=4n", 212 },
{ "CUTOFF|LI:C2C:4//53/a>1e+10", 212 },
{ "CUTOFF|LI:C2C:4//64/a<=1.4n", 6.8 },
{ "CUTOFF|LI:C2C:4//64/a<=1e+10", 13.6 },
{ "CUTOFF|LI:C2C:4//64/a<=4h", 11.1 },
{ "CUTOFF|LI:C2C:4//64/a<=4n", 6.91 },
{ "CUTOFF|LI:C2C:4//64/a>1e+10", 20.6 },
{ "CUTOFF|LI:C2C:5//53", 9.67 },
{ "CUTOFF|LI:C2C:5//53/a<=1.4n", 11.7 },
{ "CUTOFF|LI:C2C:5//53/a<=1e+10", 15.1 },
{ "CUTOFF|LI:C2C:5//53/a<=4h", 13.4 },
{ "CUTOFF|LI:C2C:5//53/a<=4n", 11.7 },
{ "CUTOFF|LI:C2C:5//53/a>1e+10", 20.6 },
{ "CUTOFF|LI:C2C:5//64/a<=1.4n", 6.67 },
{ "CUTOFF|LI:C2C:5//64/a<=1e+10", 16.1 },
{ "CUTOFF|LI:C2C:5//64/a<=4h", 15.1 },
{ "CUTOFF|LI:C2C:5//64/a<=4n", 6.9 },
{ "CUTOFF|LI:C2C:5//64/a>1e+10", 22 },
{ "CUTOFF|LI:C2C:6//53", 10.1 },
{ "CUTOFF|LI:C2C:6//53/a<=1.4n", 12.6 },
{ "CUTOFF|LI:C2C:6//53/a<=1e+10", 20 },
{ "CUTOFF|LI:C2C:6//53/a<=4h", 12.7 },
{ "CUTOFF|LI:C2C:6//53/a<=4n", 12.6 },
{ "CUTOFF|LI:C2C:6//53/a>1e+10", 26.1 },
{ "CUTOFF|LI:C2C:6//64/a<=1.4n", 6.52 },
{ "CUTOFF|LI:C2C:6//64/a<=1e+10", 18.2 },
{ "CUTOFF|LI:C2C:6//64/a<=4h", 17.1 },
{ "CUTOFF|LI:C2C:6//64/a<=4n", 6.97 },
{ "CUTOFF|LI:C2C:6//64/a>1e+10", 27.2 },
{ "CUTOFF|LI:NC2C:0/-1/53", 9.06 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=10a<=1.7", 14.3 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=10a<=4", 15.7 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=10a>4", 26.8 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=120a<=1.7", 12.8 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=120a<=4", 14.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=120a>4", 121 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=171a<=1.7", 15.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=171a<=4", 13.2 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=171a>4", 149 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=1a<=1.7", 9.18 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=1a<=4", 9.18 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=1a>4", 9.18 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=20a<=1.7", 12.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=20a<=4", 18 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=20a>4", 32.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=2a<=1.7", 16.9 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=2a<=4", 11.4 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=2a>4", 12.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=300a<=4", 19 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=300a>4", 176 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=40a<=1.7", 12.7 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=40a<=4", 13.4 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=40a>4", 35.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=5a<=1.7", 13.2 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=5a<=4", 16.3 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=5a>4", 20.9 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=80a<=1.7", 12.8 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=80a<=4", 11.1 },
{ "CUTOFF|LI:NC2C:0/-1/53/m<=80a>4", 67 },
{ "CUTOFF|LI:NC2C:0/0/53", 6 },
{ "CUTOFF|LI:NC2C:0/0/53/a<=1.4n", 6.87 },
{ "CUTOFF|LI:NC2C:0/0/53/a<=1e+10", 8.52 },
{ "CUTOFF|LI:NC2C:0/0/53/a<=4h", 8.1 },
{ "CUTOFF|LI:NC2C:0/0/53/a<=4n", 7.29 },
{ "CUTOFF|LI:NC2C:0/0/53/a>1e+10", 8.39 },
{ "CUTOFF|LI:NC2C:0/1/53", 7.44 },
{ "CUTOFF|LI:NC2C:0/1/53/a<=1.4n", 6.73 },
{ "CUTOFF|LI:NC2C:0/1/53/a<=1e+10", 8.1 },
{ "CUTOFF|LI:NC2C:0/1/53/a<=4h", 6.8 },
{ "CUTOFF|LI:NC2C:0/1/53/a<=4n", 6.57 },
{ "CUTOFF|LI:NC2C:0/1/53/a>1e+10", 8.31 },
{ "CUTOFF|LI:NC2C:0/2/53", 9.35 },
{ "CUTOFF|LI:NC2C:0/2/53/a<=1.4n", 10.7 },
{ "CUTOFF|LI:NC2C:0/2/53/a<=1e+10", 12.8 },
{ "CUTOFF|LI:NC2C:0/2/53/a<=4h", 9.35 },
{ "CUTOFF|LI:NC2C:0/2/53/a<=4n", 9.35 },
{ "CUTOFF|LI:NC2C:0/2/53/a>1e+10", 12.4 },
{ "CUTOFF|LI:NC2C:0/200+/53", 15.8 },
{ "CUTOFF|LI:NC2C:0/200+/53/a<=1.4n", 15.8 },
{ "CUTOFF|LI:NC2C:0/200+/53/a<=1e+10", 15.8 },
{ "CUTOFF|LI:NC2C:0/200+/53/a<=4h", 18.9 },
{ "CUTOFF|LI:NC2C:0/200+/53/a<=4n", 21.2 },
{ "CUTOFF|LI:NC2C:0/200+/53/a>1e+10", 15.8 },
{ "CUTOFF|LI:NC2C:0/3/53", 16.3 },
{ "CUTOFF|LI:NC2C:0/3/53/a<=1.4n", 37.9 },
{ "CUTOFF|LI:NC2C:0/3/53/a<=1e+10", 16.3 },
{ "CUTOFF|LI:NC2C:0/3/53/a<=4h", 16.3 },
{ "CUTOFF|LI:NC2C:0/3/53/a<=4n", 16.3 },
{ "CUTOFF|LI:NC2C:0/3/53/a>1e+10", 19.1 },
{ "CUTOFF|LI:NC2C:0/30-199/53", 21.2 },
{ "CUTOFF|LI:NC2C:0/30-199/53/a<=1.4n", 25.5 },
{ "CUTOFF|LI:NC2C:0/30-199/53/a<=1e+10", 21.2 },
{ "CUTOFF|LI:NC2C:0/30-199/53/a<=4h", 25.5 },
{ "CUTOFF|LI:NC2C:0/30-199/53/a<=4n", 30.1 },
{ "CUTOFF|LI:NC2C:0/30-199/53/a>1e+10", 25.5 },
{ "CUTOFF|LI:NC2C:0/4/53", 254 },
{ "CUTOFF|LI:NC2C:0/4/53/a<=1.4n", 254 },
{ "CUTOFF|LI:NC2C:0/4/53/a<=1e+10", 254 },
{ "CUTOFF|LI:NC2C:0/4/53/a<=4h", 254 },
{ "CUTOFF|LI:NC2C:0/4/53/a<=4n", 254 },
{ "CUTOFF|LI:NC2C:0/4/53/a>1e+10", 254 },
{ "CUTOFF|LI:NC2C:0/5/53", 14 },
{ "CUTOFF|LI:NC2C:0/5/53/a<=1.4n", 17.4 },
{ "CUTOFF|LI:NC2C:0/5/53/a<=1e+10", 22.7 },
{ "CUTOFF|LI:NC2C:0/5/53/a<=4h", 16.1 },
{ "CUTOFF|LI:NC2C:0/5/53/a<=4n", 14 },
{ "CUTOFF|LI:NC2C:0/5/53/a>1e+10", 31 },
{ "CUTOFF|LI:NC2C:0/6/53", 15.1 },
{ "CUTOFF|LI:NC2C:0/6/53/a<=1.4n", 15.1 },
{ "CUTOFF|LI:NC2C:0/6/53/a<=1e+10", 29.9 },
{ "CUTOFF|LI:NC2C:0/6/53/a<=4h", 15.3 },
{ "CUTOFF|LI:NC2C:0/6/53/a<=4n", 15.1 },
{ "CUTOFF|LI:NC2C:0/6/53/a>1e+10", 39.1 },
{ "CUTOFF|LI:NC2C:0/7-29/53", 31.2 },
{ "CUTOFF|LI:NC2C:0/7-29/53/a<=1.4n", 31.2 },
{ "CUTOFF|LI:NC2C:0/7-29/53/a<=1e+10", 31.2 },
{ "CUTOFF|LI:NC2C:0/7-29/53/a<=4h", 37.4 },
{ "CUTOFF|LI:NC2C:0/7-29/53/a<=4n", 31.2 },
{ "CUTOFF|LI:NC2C:0/7-29/53/a>1e+10", 31.2 },
{ "CUTON|LI:C2C:2//24", 7.36 },
{ "CUTON|LI:C2C:2//53", 7.11 },
{ "CUTON|LI:C2C:2//64", 8.28 },
{ "CUTON|LI:C2C:3//53", 8.83 },
{ "CUTON|LI:C2C:3//64", 27.6 },
{ "CUTON|LI:C2C:4//53/far", 8.78 },
{ "CUTON|LI:C2C:4//53/mid", 14.9 },
{ "CUTON|LI:C2C:4//53/near", 16 },
{ "CUTON|LI:C2C:4//64/far", 9.74 },
{ "CUTON|LI:C2C:4//64/mid", 16.6 },
{ "CUTON|LI:C2C:4//64/near", 16.2 },
{ "CUTON|LI:C2C:5//53/far", 9.1 },
{ "CUTON|LI:C2C:5//53/mid", 20.1 },
{ "CUTON|LI:C2C:5//53/near", 20 },
{ "CUTON|LI:C2C:5//64/far", 11.3 },
{ "CUTON|LI:C2C:5//64/mid", 21.8 },
{ "CUTON|LI:C2C:5//64/near", 21 },
{ "CUTON|LI:C2C:6//53/far", 11.2 },
{ "CUTON|LI:C2C:6//53/mid", 20.9 },
{ "CUTON|LI:C2C:6//53/near", 20.7 },
{ "CUTON|LI:C2C:6//64/far", 14.3 },
{ "CUTON|LI:C2C:6//64/mid", 23.9 },
{ "CUTON|LI:C2C:6//64/near", 25.5 },
{ "CUTON|LI:NC2C:0/1/53", 6.35 },
{ "CUTON|LI:NC2C:0/2/53", 8.11 },
{ "CUTON|LI:NC2C:0/200+/53/far", 9.51 },
{ "CUTON|LI:NC2C:0/200+/53/mid", 21.5 },
{ "CUTON|LI:NC2C:0/200+/53/near", 6 },
{ "CUTON|LI:NC2C:0/3/53", 11.5 },
{ "CUTON|LI:NC2C:0/30-199/53/far", 9.3 },
{ "CUTON|LI:NC2C:0/30-199/53/mid", 27.4 },
{ "CUTON|LI:NC2C:0/30-199/53/near", 28.5 },
{ "CUTON|LI:NC2C:0/4/53/far", 11.3 },
{ "CUTON|LI:NC2C:0/4/53/mid", 17.9 },
{ "CUTON|LI:NC2C:0/4/53/near", 19.2 },
{ "CUTON|LI:NC2C:0/5/53/far", 12.3 },
{ "CUTON|LI:NC2C:0/5/53/mid", 24.1 },
{ "CUTON|LI:NC2C:0/5/53/near", 24.1 },
{ "CUTON|LI:NC2C:0/6/53/far", 16.7 },
{ "CUTON|LI:NC2C:0/6/53/mid", 25.1 },
{ "CUTON|LI:NC2C:0/6/53/near", 24.9 },
{ "CUTON|LI:NC2C:0/7-29/53/far", 12.2 },
{ "CUTON|LI:NC2C:0/7-29/53/mid", 31.6 },
{ "CUTON|LI:NC2C:0/7-29/53/near", 26.5 },
{ "DIFF|CL:NR2R:0/2/53/t<=0.1", 13.1 },
{ "DIFF|CL:NR2R:0/2/53/t<=0.5", 13.4 },
{ "DIFF|CL:NR2R:0/2/53/t<=1", 13.8 },
{ "DIFF|CL:NR2R:0/2/53/t<=1.3", 13.5 },
{ "DIFF|CL:NR2R:0/2/53/t<=1.5", 13.3 },
{ "DIFF|CL:NR2R:0/2/53/t<=1.64", 13.7 },
{ "DIFF|CL:NR2R:0/2/53/t<=1.8", 13.6 },
{ "DIFF|CL:NR2R:0/2/53/t<=1e-06", 13 },
{ "DIFF|CL:NR2R:0/2/53/t<=2.1", 13.2 },
{ "DIFF|CL:NR2R:0/2/53/t<=2.6", 13.2 },
{ "DIFF|CL:NR2R:0/2/53/t<=2.95", 12.7 },
{ "DIFF|CL:NR2R:0/2/53/t<=3.1", 12.7 },
{ "DIFF|CL:NR2R:0/2/53/t<=3.141", 12.8 },
{ "DIFF|CL:NR2R:0/2/53/t>3.141", 12.8 },
{ "DIFF|CL:NR2R:0/2/53/u<=0.1", 12 },
{ "DIFF|CL:NR2R:0/2/53/u<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/2/53/u<=1", 13.3 },
{ "DIFF|CL:NR2R:0/2/53/u<=1.3", 13.4 },
{ "DIFF|CL:NR2R:0/2/53/u<=1.5", 12.8 },
{ "DIFF|CL:NR2R:0/2/53/u<=1.64", 12.9 },
{ "DIFF|CL:NR2R:0/2/53/u<=1.8", 12.8 },
{ "DIFF|CL:NR2R:0/2/53/u<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/2/53/u<=2.1", 12.8 },
{ "DIFF|CL:NR2R:0/2/53/u<=2.6", 12.6 },
{ "DIFF|CL:NR2R:0/2/53/u<=2.95", 12.7 },
{ "DIFF|CL:NR2R:0/2/53/u<=3.1", 12.7 },
{ "DIFF|CL:NR2R:0/2/53/v<=0.1", 12 },
{ "DIFF|CL:NR2R:0/2/53/v<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/2/53/v<=1", 13.3 },
{ "DIFF|CL:NR2R:0/2/53/v<=1.3", 13.3 },
{ "DIFF|CL:NR2R:0/2/53/v<=1.5", 12.5 },
{ "DIFF|CL:NR2R:0/2/53/v<=1.64", 12.6 },
{ "DIFF|CL:NR2R:0/2/53/v<=1.8", 12.5 },
{ "DIFF|CL:NR2R:0/2/53/v<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/2/53/v<=2.1", 12.5 },
{ "DIFF|CL:NR2R:0/2/53/v<=2.6", 12.3 },
{ "DIFF|CL:NR2R:0/2/53/v<=2.95", 12.3 },
{ "DIFF|CL:NR2R:0/2/53/v<=3.1", 12.2 },
{ "DIFF|CL:NR2R:0/2/53/v<=3.141", 12.2 },
{ "DIFF|CL:NR2R:0/2/53/v>3.141", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/t<=0.1", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/t<=0.5", 6.49 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1", 6.53 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1.3", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1.5", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1.64", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1.8", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/t<=1e-06", 6.5 },
{ "DIFF|CL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "DIFF|CL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "DIFF|CL:NR2R:0/200+/53/t<=2.95", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/t<=3.1", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/t<=3.141", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/t>3.141", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/u<=0.1", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/u<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1", 12.1 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1.3", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1.5", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1.64", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1.8", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/u<=1e-06", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/u<=2.1", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "DIFF|CL:NR2R:0/200+/53/u<=2.95", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/u<=3.1", 12.3 },
{ "DIFF|CL:NR2R:0/200+/53/v<=0.1", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1", 6.38 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1.3", 12.1 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1.5", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1.8", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/v<=1e-06", 12.5 },
{ "DIFF|CL:NR2R:0/200+/53/v<=2.1", 12.1 },
{ "DIFF|CL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "DIFF|CL:NR2R:0/200+/53/v<=2.95", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/v<=3.1", 12.2 },
{ "DIFF|CL:NR2R:0/200+/53/v<=3.141", 12.4 },
{ "DIFF|CL:NR2R:0/200+/53/v>3.141", 12.5 },
{ "DIFF|CL:NR2R:0/3/53/t<=0.1", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/t<=0.5", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/t<=1", 13.1 },
{ "DIFF|CL:NR2R:0/3/53/t<=1.3", 13.8 },
{ "DIFF|CL:NR2R:0/3/53/t<=1.5", 14.7 },
{ "DIFF|CL:NR2R:0/3/53/t<=1.64", 14.5 },
{ "DIFF|CL:NR2R:0/3/53/t<=1.8", 13.3 },
{ "DIFF|CL:NR2R:0/3/53/t<=1e-06", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/t<=2.1", 13.1 },
{ "DIFF|CL:NR2R:0/3/53/t<=2.6", 13 },
{ "DIFF|CL:NR2R:0/3/53/t<=2.95", 13.8 },
{ "DIFF|CL:NR2R:0/3/53/t<=3.1", 14.2 },
{ "DIFF|CL:NR2R:0/3/53/t<=3.141", 14.3 },
{ "DIFF|CL:NR2R:0/3/53/t>3.141", 14.4 },
{ "DIFF|CL:NR2R:0/3/53/u<=0.1", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/u<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/3/53/u<=1", 12.3 },
{ "DIFF|CL:NR2R:0/3/53/u<=1.3", 12.5 },
{ "DIFF|CL:NR2R:0/3/53/u<=1.5", 12.7 },
{ "DIFF|CL:NR2R:0/3/53/u<=1.64", 12.7 },
{ "DIFF|CL:NR2R:0/3/53/u<=1.8", 12.4 },
{ "DIFF|CL:NR2R:0/3/53/u<=1e-06", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/u<=2.1", 12.5 },
{ "DIFF|CL:NR2R:0/3/53/u<=2.6", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/u<=2.95", 13.3 },
{ "DIFF|CL:NR2R:0/3/53/u<=3.1", 14 },
{ "DIFF|CL:NR2R:0/3/53/v<=0.1", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/v<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/3/53/v<=1", 12.2 },
{ "DIFF|CL:NR2R:0/3/53/v<=1.3", 12.2 },
{ "DIFF|CL:NR2R:0/3/53/v<=1.5", 12.3 },
{ "DIFF|CL:NR2R:0/3/53/v<=1.64", 12.4 },
{ "DIFF|CL:NR2R:0/3/53/v<=1.8", 12.3 },
{ "DIFF|CL:NR2R:0/3/53/v<=1e-06", 12.8 },
{ "DIFF|CL:NR2R:0/3/53/v<=2.1", 12.3 },
{ "DIFF|CL:NR2R:0/3/53/v<=2.6", 12.3 },
{ "DIFF|CL:NR2R:0/3/53/v<=2.95", 12.7 },
{ "DIFF|CL:NR2R:0/3/53/v<=3.1", 13.3 },
{ "DIFF|CL:NR2R:0/3/53/v<=3.141", 15 },
{ "DIFF|CL:NR2R:0/3/53/v>3.141", 15.4 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=0.1", 12.7 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=0.5", 7.44 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1", 7.42 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1.3", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1.5", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1.64", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1.8", 12.5 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=1e-06", 7.08 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=2.1", 12.5 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=2.6", 12.5 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=2.95", 12.4 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=3.1", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/t<=3.141", 12.4 },
{ "DIFF|CL:NR2R:0/30-199/53/t>3.141", 12.5 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=0.1", 12.9 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=0.5", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1.3", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1.5", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1.64", 12.7 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1.8", 12.4 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=1e-06", 12.9 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=2.1", 12.4 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=2.6", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=2.95", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/u<=3.1", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=0.1", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=0.5", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1", 12.1 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1.3", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1.5", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1.64", 12.6 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1.8", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=1e-06", 12.8 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=2.1", 12.2 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=2.6", 12.1 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=2.95", 12.1 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=3.1", 12.3 },
{ "DIFF|CL:NR2R:0/30-199/53/v<=3.141", 12.4 },
{ "DIFF|CL:NR2R:0/30-199/53/v>3.141", 12.4 },
{ "DIFF|CL:NR2R:0/4/53/t<=0.1", 12.7 },
{ "DIFF|CL:NR2R:0/4/53/t<=0.5", 12.7 },
{ "DIFF|CL:NR2R:0/4/53/t<=1", 12.8 },
{ "DIFF|CL:NR2R:0/4/53/t<=1.3", 13.5 },
{ "DIFF|CL:NR2R:0/4/53/t<=1.5", 17.6 },
{ "DIFF|CL:NR2R:0/4/53/t<=1.64", 17.6 },
{ "DIFF|CL:NR2R:0/4/53/t<=1.8", 14.2 },
{ "DIFF|CL:NR2R:0/4/53/t<=1e-06", 12.7 },
{ "DIFF|CL:NR2R:0/4/53/t<=2.1", 13.4 },
{ "DIFF|CL:NR2R:0/4/53/t<=2.6", 13.1 },
{ "DIFF|CL:NR2R:0/4/53/t<=2.95", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/t<=3.1", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/t<=3.141", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/t>3.141", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/u<=0.1", 12 },
{ "DIFF|CL:NR2R:0/4/53/u<=0.5", 12.1 },
{ "DIFF|CL:NR2R:0/4/53/u<=1", 12.3 },
{ "DIFF|CL:NR2R:0/4/53/u<=1.3", 12.9 },
{ "DIFF|CL:NR2R:0/4/53/u<=1.5", 16.3 },
{ "DIFF|CL:NR2R:0/4/53/u<=1.64", 14.4 },
{ "DIFF|CL:NR2R:0/4/53/u<=1.8", 13.6 },
{ "DIFF|CL:NR2R:0/4/53/u<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/4/53/u<=2.1", 12.9 },
{ "DIFF|CL:NR2R:0/4/53/u<=2.6", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/u<=2.95", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/u<=3.1", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/v<=0.1", 12 },
{ "DIFF|CL:NR2R:0/4/53/v<=0.5", 12.1 },
{ "DIFF|CL:NR2R:0/4/53/v<=1", 12.2 },
{ "DIFF|CL:NR2R:0/4/53/v<=1.3", 12.5 },
{ "DIFF|CL:NR2R:0/4/53/v<=1.5", 16.9 },
{ "DIFF|CL:NR2R:0/4/53/v<=1.64", 13.8 },
{ "DIFF|CL:NR2R:0/4/53/v<=1.8", 12.6 },
{ "DIFF|CL:NR2R:0/4/53/v<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/4/53/v<=2.1", 12.4 },
{ "DIFF|CL:NR2R:0/4/53/v<=2.6", 12.3 },
{ "DIFF|CL:NR2R:0/4/53/v<=2.95", 12.2 },
{ "DIFF|CL:NR2R:0/4/53/v<=3.1", 12.2 },
{ "DIFF|CL:NR2R:0/4/53/v<=3.141", 12.2 },
{ "DIFF|CL:NR2R:0/4/53/v>3.141", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/t<=0.1", 14.7 },
{ "DIFF|CL:NR2R:0/5/53/t<=0.5", 14.4 },
{ "DIFF|CL:NR2R:0/5/53/t<=1", 13.3 },
{ "DIFF|CL:NR2R:0/5/53/t<=1.3", 13.1 },
{ "DIFF|CL:NR2R:0/5/53/t<=1.5", 13.1 },
{ "DIFF|CL:NR2R:0/5/53/t<=1.64", 13.1 },
{ "DIFF|CL:NR2R:0/5/53/t<=1.8", 12.9 },
{ "DIFF|CL:NR2R:0/5/53/t<=1e-06", 13.7 },
{ "DIFF|CL:NR2R:0/5/53/t<=2.1", 12.6 },
{ "DIFF|CL:NR2R:0/5/53/t<=2.6", 12.9 },
{ "DIFF|CL:NR2R:0/5/53/t<=2.95", 13.6 },
{ "DIFF|CL:NR2R:0/5/53/t<=3.1", 14.3 },
{ "DIFF|CL:NR2R:0/5/53/t<=3.141", 14.4 },
{ "DIFF|CL:NR2R:0/5/53/t>3.141", 14.2 },
{ "DIFF|CL:NR2R:0/5/53/u<=0.1", 14.2 },
{ "DIFF|CL:NR2R:0/5/53/u<=0.5", 13.2 },
{ "DIFF|CL:NR2R:0/5/53/u<=1", 12.3 },
{ "DIFF|CL:NR2R:0/5/53/u<=1.3", 12.3 },
{ "DIFF|CL:NR2R:0/5/53/u<=1.5", 12.4 },
{ "DIFF|CL:NR2R:0/5/53/u<=1.64", 12.4 },
{ "DIFF|CL:NR2R:0/5/53/u<=1.8", 12.3 },
{ "DIFF|CL:NR2R:0/5/53/u<=1e-06", 13.7 },
{ "DIFF|CL:NR2R:0/5/53/u<=2.1", 12.4 },
{ "DIFF|CL:NR2R:0/5/53/u<=2.6", 12.7 },
{ "DIFF|CL:NR2R:0/5/53/u<=2.95", 13.3 },
{ "DIFF|CL:NR2R:0/5/53/u<=3.1", 13.7 },
{ "DIFF|CL:NR2R:0/5/53/v<=0.1", 14.4 },
{ "DIFF|CL:NR2R:0/5/53/v<=0.5", 13 },
{ "DIFF|CL:NR2R:0/5/53/v<=1", 12.3 },
{ "DIFF|CL:NR2R:0/5/53/v<=1.3", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/v<=1.5", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/v<=1.64", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/v<=1.8", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/v<=1e-06", 13.7 },
{ "DIFF|CL:NR2R:0/5/53/v<=2.1", 12.2 },
{ "DIFF|CL:NR2R:0/5/53/v<=2.6", 12.4 },
{ "DIFF|CL:NR2R:0/5/53/v<=2.95", 12.7 },
{ "DIFF|CL:NR2R:0/5/53/v<=3.1", 13.3 },
{ "DIFF|CL:NR2R:0/5/53/v<=3.141", 15.1 },
{ "DIFF|CL:NR2R:0/5/53/v>3.141", 15 },
{ "DIFF|CL:NR2R:0/6/53/t<=0.1", 13.1 },
{ "DIFF|CL:NR2R:0/6/53/t<=0.5", 13.4 },
{ "DIFF|CL:NR2R:0/6/53/t<=1", 13.3 },
{ "DIFF|CL:NR2R:0/6/53/t<=1.3", 13.7 },
{ "DIFF|CL:NR2R:0/6/53/t<=1.5", 13.8 },
{ "DIFF|CL:NR2R:0/6/53/t<=1.64", 14.2 },
{ "DIFF|CL:NR2R:0/6/53/t<=1.8", 13.9 },
{ "DIFF|CL:NR2R:0/6/53/t<=1e-06", 12.9 },
{ "DIFF|CL:NR2R:0/6/53/t<=2.1", 13.3 },
{ "DIFF|CL:NR2R:0/6/53/t<=2.6", 13 },
{ "DIFF|CL:NR2R:0/6/53/t<=2.95", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/t<=3.1", 12.6 },
{ "DIFF|CL:NR2R:0/6/53/t<=3.141", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/t>3.141", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/u<=0.1", 12 },
{ "DIFF|CL:NR2R:0/6/53/u<=0.5", 12.1 },
{ "DIFF|CL:NR2R:0/6/53/u<=1", 12.4 },
{ "DIFF|CL:NR2R:0/6/53/u<=1.3", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/u<=1.5", 13.3 },
{ "DIFF|CL:NR2R:0/6/53/u<=1.64", 14.2 },
{ "DIFF|CL:NR2R:0/6/53/u<=1.8", 13 },
{ "DIFF|CL:NR2R:0/6/53/u<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/6/53/u<=2.1", 12.9 },
{ "DIFF|CL:NR2R:0/6/53/u<=2.6", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/u<=2.95", 12.6 },
{ "DIFF|CL:NR2R:0/6/53/u<=3.1", 12.6 },
{ "DIFF|CL:NR2R:0/6/53/v<=0.1", 12 },
{ "DIFF|CL:NR2R:0/6/53/v<=0.5", 12.1 },
{ "DIFF|CL:NR2R:0/6/53/v<=1", 12.3 },
{ "DIFF|CL:NR2R:0/6/53/v<=1.3", 12.6 },
{ "DIFF|CL:NR2R:0/6/53/v<=1.5", 13 },
{ "DIFF|CL:NR2R:0/6/53/v<=1.64", 13.7 },
{ "DIFF|CL:NR2R:0/6/53/v<=1.8", 12.7 },
{ "DIFF|CL:NR2R:0/6/53/v<=1e-06", 12 },
{ "DIFF|CL:NR2R:0/6/53/v<=2.1", 12.5 },
{ "DIFF|CL:NR2R:0/6/53/v<=2.6", 12.3 },
{ "DIFF|CL:NR2R:0/6/53/v<=2.95", 12.2 },
{ "DIFF|CL:NR2R:0/6/53/v<=3.1", 12.2 },
{ "DIFF|CL:NR2R:0/6/53/v<=3.141", 12.2 },
{ "DIFF|CL:NR2R:0/6/53/v>3.141", 12.2 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=0.1", 99.1 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=0.5", 75.1 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1", 11.8 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1.3", 8.65 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1.5", 15.1 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1.64", 15.6 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1.8", 15 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=1e-06", 99.4 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=2.1", 11.8 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=2.6", 14.6 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=2.95", 40.8 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=3.1", 83.3 },
{ "DIFF|CL:NR2R:0/7-29/53/t<=3.141", 95.8 },
{ "DIFF|CL:NR2R:0/7-29/53/t>3.141", 160 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=0.1", 18.2 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=0.5", 13.7 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1", 6.93 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1.3", 13.2 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1.5", 13.3 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1.64", 14.8 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1.8", 14.2 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=1e-06", 12.9 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=2.1", 13.4 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=2.6", 14.6 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=2.95", 26.2 },
{ "DIFF|CL:NR2R:0/7-29/53/u<=3.1", 60.7 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=0.1", 15.1 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=0.5", 6.99 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1", 6.74 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1.3", 6.91 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1.5", 13.1 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1.64", 8.27 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1.8", 13 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=1e-06", 13 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=2.1", 7.36 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=2.6", 8.89 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=2.95", 15.3 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=3.1", 41.4 },
{ "DIFF|CL:NR2R:0/7-29/53/v<=3.141", 99.1 },
{ "DIFF|CL:NR2R:0/7-29/53/v>3.141", 91.7 },
{ "DIFF|CL:R2R:2//53/t<=0.1", 7.71 },
{ "DIFF|CL:R2R:2//53/t<=0.5", 7.42 },
{ "DIFF|CL:R2R:2//53/t<=1", 7.85 },
{ "DIFF|CL:R2R:2//53/t<=1.3", 8.2 },
{ "DIFF|CL:R2R:2//53/t<=1.5", 7.73 },
{ "DIFF|CL:R2R:2//53/t<=1.64", 8.86 },
{ "DIFF|CL:R2R:2//53/t<=1.8", 8.62 },
{ "DIFF|CL:R2R:2//53/t<=1e-06", 6.97 },
{ "DIFF|CL:R2R:2//53/t<=2.1", 8.46 },
{ "DIFF|CL:R2R:2//53/t<=2.6", 8.04 },
{ "DIFF|CL:R2R:2//53/t<=2.95", 7.07 },
{ "DIFF|CL:R2R:2//53/t<=3.1", 6.96 },
{ "DIFF|CL:R2R:2//53/t<=3.141", 6.95 },
{ "DIFF|CL:R2R:2//53/t>3.141", 6.92 },
{ "DIFF|CL:R2R:2//53/u<=0.1", 6.35 },
{ "DIFF|CL:R2R:2//53/u<=0.5", 6.35 },
{ "DIFF|CL:R2R:2//53/u<=1", 8.21 },
{ "DIFF|CL:R2R:2//53/u<=1.3", 7.96 },
{ "DIFF|CL:R2R:2//53/u<=1.5", 7.04 },
{ "DIFF|CL:R2R:2//53/u<=1.64", 7.67 },
{ "DIFF|CL:R2R:2//53/u<=1.8", 7.43 },
{ "DIFF|CL:R2R:2//53/u<=1e-06", 6.35 },
{ "DIFF|CL:R2R:2//53/u<=2.1", 7.74 },
{ "DIFF|CL:R2R:2//53/u<=2.6", 7.64 },
{ "DIFF|CL:R2R:2//53/u<=2.95", 7.25 },
{ "DIFF|CL:R2R:2//53/u<=3.1", 12.7 },
{ "DIFF|CL:R2R:2//53/v<=0.1", 6.69 },
{ "DIFF|CL:R2R:2//53/v<=0.5", 6.65 },
{ "DIFF|CL:R2R:2//53/v<=1", 7.95 },
{ "DIFF|CL:R2R:2//53/v<=1.3", 7.98 },
{ "DIFF|CL:R2R:2//53/v<=1.5", 6.95 },
{ "DIFF|CL:R2R:2//53/v<=1.64", 6.62 },
{ "DIFF|CL:R2R:2//53/v<=1.8", 7.09 },
{ "DIFF|CL:R2R:2//53/v<=1e-06", 6.37 },
{ "DIFF|CL:R2R:2//53/v<=2.1", 7 },
{ "DIFF|CL:R2R:2//53/v<=2.6", 6.88 },
{ "DIFF|CL:R2R:2//53/v<=2.95", 6.57 },
{ "DIFF|CL:R2R:2//53/v<=3.1", 6.42 },
{ "DIFF|CL:R2R:2//53/v<=3.141", 12.2 },
{ "DIFF|CL:R2R:2//53/v>3.141", 6.35 },
{ "DIFF|CL:R2R:2//64/t<=0.1", 7.78 },
{ "DIFF|CL:R2R:2//64/t<=0.5", 8.05 },
{ "DIFF|CL:R2R:2//64/t<=1", 8.7 },
{ "DIFF|CL:R2R:2//64/t<=1.3", 8.31 },
{ "DIFF|CL:R2R:2//64/t<=1.5", 13.5 },
{ "DIFF|CL:R2R:2//64/t<=1.64", 14.1 },
{ "DIFF|CL:R2R:2//64/t<=1.8", 13.8 },
{ "DIFF|CL:R2R:2//64/t<=1e-06", 6.82 },
{ "DIFF|CL:R2R:2//64/t<=2.1", 8.67 },
{ "DIFF|CL:R2R:2//64/t<=2.6", 7.96 },
{ "DIFF|CL:R2R:2//64/t<=2.95", 13 },
{ "DIFF|CL:R2R:2//64/t<=3.1", 12.8 },
{ "DIFF|CL:R2R:2//64/t<=3.141", 12.4 },
{ "DIFF|CL:R2R:2//64/t>3.141", 12.5 },
{ "DIFF|CL:R2R:2//64/u<=0.1", 12 },
{ "DIFF|CL:R2R:2//64/u<=0.5", 12.2 },
{ "DIFF|CL:R2R:2//64/u<=1", 13.7 },
{ "DIFF|CL:R2R:2//64/u<=1.3", 13.5 },
{ "DIFF|CL:R2R:2//64/u<=1.5", 12.8 },
{ "DIFF|CL:R2R:2//64/u<=1.64", 13.3 },
{ "DIFF|CL:R2R:2//64/u<=1.8", 12.8 },
{ "DIFF|CL:R2R:2//64/u<=1e-06", 12 },
{ "DIFF|CL:R2R:2//64/u<=2.1", 12.8 },
{ "DIFF|CL:R2R:2//64/u<=2.6", 7.41 },
{ "DIFF|CL:R2R:2//64/u<=2.95", 12.4 },
{ "DIFF|CL:R2R:2//64/u<=3.1", 12.4 },
{ "DIFF|CL:R2R:2//64/v<=0.1", 12 },
{ "DIFF|CL:R2R:2//64/v<=0.5", 6.5 },
{ "DIFF|CL:R2R:2//64/v<=1", 8.08 },
{ "DIFF|CL:R2R:2//64/v<=1.3", 13.2 },
{ "DIFF|CL:R2R:2//64/v<=1.5", 12.6 },
{ "DIFF|CL:R2R:2//64/v<=1.64", 8.01 },
{ "DIFF|CL:R2R:2//64/v<=1.8", 12.6 },
{ "DIFF|CL:R2R:2//64/v<=1e-06", 12 },
{ "DIFF|CL:R2R:2//64/v<=2.1", 12.4 },
{ "DIFF|CL:R2R:2//64/v<=2.6", 6.77 },
{ "DIFF|CL:R2R:2//64/v<=2.95", 12.3 },
{ "DIFF|CL:R2R:2//64/v<=3.1", 12.2 },
{ "DIFF|CL:R2R:2//64/v<=3.141", 12.2 },
{ "DIFF|CL:R2R:2//64/v>3.141", 6.29 },
{ "DIFF|CL:R2R:3//53/t<=0.1", 7.21 },
{ "DIFF|CL:R2R:3//53/t<=0.5", 6.79 },
{ "DIFF|CL:R2R:3//53/t<=1", 7.05 },
{ "DIFF|CL:R2R:3//53/t<=1.3", 9.52 },
{ "DIFF|CL:R2R:3//53/t<=1.5", 11.6 },
{ "DIFF|CL:R2R:3//53/t<=1.64", 11.7 },
{ "DIFF|CL:R2R:3//53/t<=1.8", 7.39 },
{ "DIFF|CL:R2R:3//53/t<=1e-06", 6.81 },
{ "DIFF|CL:R2R:3//53/t<=2.1", 7.73 },
{ "DIFF|CL:R2R:3//53/t<=2.6", 7.95 },
{ "DIFF|CL:R2R:3//53/t<=2.95", 9.37 },
{ "DIFF|CL:R2R:3//53/t<=3.1", 14.1 },
{ "DIFF|CL:R2R:3//53/t<=3.141", 14.3 },
{ "DIFF|CL:R2R:3//53/t>3.141", 12 },
{ "DIFF|CL:R2R:3//53/u<=0.1", 12.8 },
{ "DIFF|CL:R2R:3//53/u<=0.5", 6.45 },
{ "DIFF|CL:R2R:3//53/u<=1", 6.47 },
{ "DIFF|CL:R2R:3//53/u<=1.3", 6.99 },
{ "DIFF|CL:R2R:3//53/u<=1.5", 12.7 },
{ "DIFF|CL:R2R:3//53/u<=1.64", 12.7 },
{ "DIFF|CL:R2R:3//53/u<=1.8", 12.4 },
{ "DIFF|CL:R2R:3//53/u<=1e-06", 12.7 },
{ "DIFF|CL:R2R:3//53/u<=2.1", 12.5 },
{ "DIFF|CL:R2R:3//53/u<=2.6", 7.59 },
{ "DIFF|CL:R2R:3//53/u<=2.95", 13.3 },
{ "DIFF|CL:R2R:3//53/u<=3.1", 14 },
{ "DIFF|CL:R2R:3//53/v<=0.1", 12.8 },
{ "DIFF|CL:R2R:3//53/v<=0.5", 6.66 },
{ "DIFF|CL:R2R:3//53/v<=1", 6.65 },
{ "DIFF|CL:R2R:3//53/v<=1.3", 6.92 },
{ "DIFF|CL:R2R:3//53/v<=1.5", 12.3 },
{ "DIFF|CL:R2R:3//53/v<=1.64", 6.41 },
{ "DIFF|CL:R2R:3//53/v<=1.8", 12.3 },
{ "DIFF|CL:R2R:3//53/v<=1e-06", 12.8 },
{ "DIFF|CL:R2R:3//53/v<=2.1", 6.74 },
{ "DIFF|CL:R2R:3//53/v<=2.6", 6.83 },
{ "DIFF|CL:R2R:3//53/v<=2.95", 7.97 },
{ "DIFF|CL:R2R:3//53/v<=3.1", 13.3 },
{ "DIFF|CL:R2R:3//53/v<=3.141", 14 },
{ "DIFF|CL:R2R:3//53/v>3.141", 12.8 },
{ "DIFF|CL:R2R:3//64/t<=0.1", 7.33 },
{ "DIFF|CL:R2R:3//64/t<=0.5", 7.71 },
{ "DIFF|CL:R2R:3//64/t<=1", 9.04 },
{ "DIFF|CL:R2R:3//64/t<=1.3", 44.4 },
{ "DIFF|CL:R2R:3//64/t<=1.5", 84 },
{ "DIFF|CL:R2R:3//64/t<=1.64", 190 },
{ "DIFF|CL:R2R:3//64/t<=1.8", 76 },
{ "DIFF|CL:R2R:3//64/t<=1e-06", 6.82 },
{ "DIFF|CL:R2R:3//64/t<=2.1", 38 },
{ "DIFF|CL:R2R:3//64/t<=2.6", 19 },
{ "DIFF|CL:R2R:3//64/t<=2.95", 27 },
{ "DIFF|CL:R2R:3//64/t<=3.1", 14.8 },
{ "DIFF|CL:R2R:3//64/t<=3.141", 17.4 },
{ "DIFF|CL:R2R:3//64/t>3.141", 14.1 },
{ "DIFF|CL:R2R:3//64/u<=0.1", 12.8 },
{ "DIFF|CL:R2R:3//64/u<=0.5", 12.3 },
{ "DIFF|CL:R2R:3//64/u<=1", 6.72 },
{ "DIFF|CL:R2R:3//64/u<=1.3", 21.2 },
{ "DIFF|CL:R2R:3//64/u<=1.5", 15.1 },
{ "DIFF|CL:R2R:3//64/u<=1.64", 67.1 },
{ "DIFF|CL:R2R:3//64/u<=1.8", 34.5 },
{ "DIFF|CL:R2R:3//64/u<=1e-06", 12.8 },
{ "DIFF|CL:R2R:3//64/u<=2.1", 24.6 },
{ "DIFF|CL:R2R:3//64/u<=2.6", 10.6 },
{ "DIFF|CL:R2R:3//64/u<=2.95", 16 },
{ "DIFF|CL:R2R:3//64/u<=3.1", 13.9 },
{ "DIFF|CL:R2R:3//64/v<=0.1", 12.8 },
{ "DIFF|CL:R2R:3//64/v<=0.5", 6.66 },
{ "DIFF|CL:R2R:3//64/v<=1", 6.78 },
{ "DIFF|CL:R2R:3//64/v<=1.3", 13.4 },
{ "DIFF|CL:R2R:3//64/v<=1.5", 17.8 },
{ "DIFF|CL:R2R:3//64/v<=1.64", 40.4 },
{ "DIFF|CL:R2R:3//64/v<=1.8", 16.1 },
{ "DIFF|CL:R2R:3//64/v<=1e-06", 12.8 },
{ "DIFF|CL:R2R:3//64/v<=2.1", 14.8 },
{ "DIFF|CL:R2R:3//64/v<=2.6", 8.09 },
{ "DIFF|CL:R2R:3//64/v<=2.95", 13.3 },
{ "DIFF|CL:R2R:3//64/v<=3.1", 13.1 },
{ "DIFF|CL:R2R:3//64/v<=3.141", 14.1 },
{ "DIFF|CL:R2R:3//64/v>3.141", 11.9 },
{ "DIFF|CL:R2R:4//53/t<=0.1", 7.07 },
{ "DIFF|CL:R2R:4//53/t<=0.5", 6.71 },
{ "DIFF|CL:R2R:4//53/t<=1", 6.94 },
{ "DIFF|CL:R2R:4//53/t<=1.3", 9.54 },
{ "DIFF|CL:R2R:4//53/t<=1.5", 14.7 },
{ "DIFF|CL:R2R:4//53/t<=1.64", 14.6 },
{ "DIFF|CL:R2R:4//53/t<=1.8", 9.76 },
{ "DIFF|CL:R2R:4//53/t<=1e-06", 6.66 },
{ "DIFF|CL:R2R:4//53/t<=2.1", 8.84 },
{ "DIFF|CL:R2R:4//53/t<=2.6", 7.97 },
{ "DIFF|CL:R2R:4//53/t<=2.95", 7.09 },
{ "DIFF|CL:R2R:4//53/t<=3.1", 12.6 },
{ "DIFF|CL:R2R:4//53/t<=3.141", 12.6 },
{ "DIFF|CL:R2R:4//53/t>3.141", 6.92 },
{ "DIFF|CL:R2R:4//53/u<=0.1", 12 },
{ "DIFF|CL:R2R:4//53/u<=0.5", 12.1 },
{ "DIFF|CL:R2R:4//53/u<=1", 6.9 },
{ "DIFF|CL:R2R:4//53/u<=1.3", 8.31 },
{ "DIFF|CL:R2R:4//53/u<=1.5", 13.7 },
{ "DIFF|CL:R2R:4//53/u<=1.64", 14.4 },
{ "DIFF|CL:R2R:4//53/u<=1.8", 13.6 },
{ "DIFF|CL:R2R:4//53/u<=1e-06", 12 },
{ "DIFF|CL:R2R:4//53/u<=2.1", 7.61 },
{ "DIFF|CL:R2R:4//53/u<=2.6", 7.51 },
{ "DIFF|CL:R2R:4//53/u<=2.95", 12.6 },
{ "DIFF|CL:R2R:4//53/u<=3.1", 12.6 },
{ "DIFF|CL:R2R:4//53/v<=0.1", 12 },
{ "DIFF|CL:R2R:4//53/v<=0.5", 6.41 },
{ "DIFF|CL:R2R:4//53/v<=1", 6.6 },
{ "DIFF|CL:R2R:4//53/v<=1.3", 7.56 },
{ "DIFF|CL:R2R:4//53/v<=1.5", 14.3 },
{ "DIFF|CL:R2R:4//53/v<=1.64", 8.62 },
{ "DIFF|CL:R2R:4//53/v<=1.8", 12.6 },
{ "DIFF|CL:R2R:4//53/v<=1e-06", 12 },
{ "DIFF|CL:R2R:4//53/v<=2.1", 7.08 },
{ "DIFF|CL:R2R:4//53/v<=2.6", 6.85 },
{ "DIFF|CL:R2R:4//53/v<=2.95", 6.57 },
{ "DIFF|CL:R2R:4//53/v<=3.1", 12.2 },
{ "DIFF|CL:R2R:4//53/v<=3.141", 12.2 },
{ "DIFF|CL:R2R:4//53/v>3.141", 6.35 },
{ "DIFF|CL:R2R:4//64/t<=0.1", 7.14 },
{ "DIFF|CL:R2R:4//64/t<=0.5", 7.35 },
{ "DIFF|CL:R2R:4//64/t<=1", 8.09 },
{ "DIFF|CL:R2R:4//64/t<=1.3", 14 },
{ "DIFF|CL:R2R:4//64/t<=1.5", 34.8 },
{ "DIFF|CL:R2R:4//64/t<=1.64", 80.9 },
{ "DIFF|CL:R2R:4//64/t<=1.8", 34.9 },
{ "DIFF|CL:R2R:4//64/t<=1e-06", 6.71 },
{ "DIFF|CL:R2R:4//64/t<=2.1", 19.7 },
{ "DIFF|CL:R2R:4//64/t<=2.6", 13.2 },
{ "DIFF|CL:R2R:4//64/t<=2.95", 14.9 },
{ "DIFF|CL:R2R:4//64/t<=3.1", 13.4 },
{ "DIFF|CL:R2R:4//64/t<=3.141", 12.5 },
{ "DIFF|CL:R2R:4//64/t>3.141", 12.6 },
{ "DIFF|CL:R2R:4//64/u<=0.1", 12 },
{ "DIFF|CL:R2R:4//64/u<=0.5", 12.1 },
{ "DIFF|CL:R2R:4//64/u<=1", 12.5 },
{ "DIFF|CL:R2R:4//64/u<=1.3", 14 },
{ "DIFF|CL:R2R:4//64/u<=1.5", 17.3 },
{ "DIFF|CL:R2R:4//64/u<=1.64", 57.8 },
{ "DIFF|CL:R2R:4//64/u<=1.8", 29 },
{ "DIFF|CL:R2R:4//64/u<=1e-06", 12 },
{ "DIFF|CL:R2R:4//64/u<=2.1", 14.4 },
{ "DIFF|CL:R2R:4//64/u<=2.6", 7.55 },
{ "DIFF|CL:R2R:4//64/u<=2.95", 13.2 },
{ "DIFF|CL:R2R:4//64/u<=3.1", 12.3 },
{ "DIFF|CL:R2R:4//64/v<=0.1", 12 },
{ "DIFF|CL:R2R:4//64/v<=0.5", 6.37 },
{ "DIFF|CL:R2R:4//64/v<=1", 6.57 },
{ "DIFF|CL:R2R:4//64/v<=1.3", 13.2 },
{ "DIFF|CL:R2R:4//64/v<=1.5", 15.8 },
{ "DIFF|CL:R2R:4//64/v<=1.64", 44.6 },
{ "DIFF|CL:R2R:4//64/v<=1.8", 17.4 },
{ "DIFF|CL:R2R:4//64/v<=1e-06", 12 },
{ "DIFF|CL:R2R:4//64/v<=2.1", 14.2 },
{ "DIFF|CL:R2R:4//64/v<=2.6", 7.09 },
{ "DIFF|CL:R2R:4//64/v<=2.95", 12.8 },
{ "DIFF|CL:R2R:4//64/v<=3.1", 12.1 },
{ "DIFF|CL:R2R:4//64/v<=3.141", 12.1 },
{ "DIFF|CL:R2R:4//64/v>3.141", 6.29 },
{ "DIFF|CL:R2R:5//53/t<=0.1", 11.8 },
{ "DIFF|CL:R2R:5//53/t<=0.5", 9.61 },
{ "DIFF|CL:R2R:5//53/t<=1", 7.59 },
{ "DIFF|CL:R2R:5//53/t<=1.3", 7.98 },
{ "DIFF|CL:R2R:5//53/t<=1.5", 7.77 },
{ "DIFF|CL:R2R:5//53/t<=1.64", 7.87 },
{ "DIFF|CL:R2R:5//53/t<=1.8", 7.46 },
{ "DIFF|CL:R2R:5//53/t<=1e-06", 7.9 },
{ "DIFF|CL:R2R:5//53/t<=2.1", 7.64 },
{ "DIFF|CL:R2R:5//53/t<=2.6", 7.79 },
{ "DIFF|CL:R2R:5//53/t<=2.95", 9 },
{ "DIFF|CL:R2R:5//53/t<=3.1", 13.9 },
{ "DIFF|CL:R2R:5//53/t<=3.141", 14.4 },
{ "DIFF|CL:R2R:5//53/t>3.141", 11.1 },
{ "DIFF|CL:R2R:5//53/u<=0.1", 14.2 },
{ "DIFF|CL:R2R:5//53/u<=0.5", 13.2 },
{ "DIFF|CL:R2R:5//53/u<=1", 6.77 },
{ "DIFF|CL:R2R:5//53/u<=1.3", 12.3 },
{ "DIFF|CL:R2R:5//53/u<=1.5", 12.4 },
{ "DIFF|CL:R2R:5//53/u<=1.64", 12.4 },
{ "DIFF|CL:R2R:5//53/u<=1.8", 12.3 },
{ "DIFF|CL:R2R:5//53/u<=1e-06", 13.7 },
{ "DIFF|CL:R2R:5//53/u<=2.1", 7.29 },
{ "DIFF|CL:R2R:5//53/u<=2.6", 7.74 },
{ "DIFF|CL:R2R:5//53/u<=2.95", 13.3 },
{ "DIFF|CL:R2R:5//53/u<=3.1", 13.7 },
{ "DIFF|CL:R2R:5//53/v<=0.1", 14.1 },
{ "DIFF|CL:R2R:5//53/v<=0.5", 8.22 },
{ "DIFF|CL:R2R:5//53/v<=1", 6.63 },
{ "DIFF|CL:R2R:5//53/v<=1.3", 6.57 },
{ "DIFF|CL:R2R:5//53/v<=1.5", 12.2 },
{ "DIFF|CL:R2R:5//53/v<=1.64", 6.23 },
{ "DIFF|CL:R2R:5//53/v<=1.8", 12.2 },
{ "DIFF|CL:R2R:5//53/v<=1e-06", 13.7 },
{ "DIFF|CL:R2R:5//53/v<=2.1", 6.74 },
{ "DIFF|CL:R2R:5//53/v<=2.6", 6.84 },
{ "DIFF|CL:R2R:5//53/v<=2.95", 7.66 },
{ "DIFF|CL:R2R:5//53/v<=3.1", 13.3 },
{ "DIFF|CL:R2R:5//53/v<=3.141", 14.1 },
{ "DIFF|CL:R2R:5//53/v>3.141", 12.5 },
{ "DIFF|CL:R2R:5//64/t<=0.1", 12.8 },
{ "DIFF|CL:R2R:5//64/t<=0.5", 12.5 },
{ "DIFF|CL:R2R:5//64/t<=1", 8.88 },
{ "DIFF|CL:R2R:5//64/t<=1.3", 107 },
{ "DIFF|CL:R2R:5//64/t<=1.5", 93.9 },
{ "DIFF|CL:R2R:5//64/t<=1.64", 306 },
{ "DIFF|CL:R2R:5//64/t<=1.8", 80.7 },
{ "DIFF|CL:R2R:5//64/t<=1e-06", 7.63 },
{ "DIFF|CL:R2R:5//64/t<=2.1", 73.4 },
{ "DIFF|CL:R2R:5//64/t<=2.6", 54 },
{ "DIFF|CL:R2R:5//64/t<=2.95", 38.9 },
{ "DIFF|CL:R2R:5//64/t<=3.1", 14.4 },
{ "DIFF|CL:R2R:5//64/t<=3.141", 15.3 },
{ "DIFF|CL:R2R:5//64/t>3.141", 14.7 },
{ "DIFF|CL:R2R:5//64/u<=0.1", 14.5 },
{ "DIFF|CL:R2R:5//64/u<=0.5", 13.3 },
{ "DIFF|CL:R2R:5//64/u<=1", 12.5 },
{ "DIFF|CL:R2R:5//64/u<=1.3", 22.9 },
{ "DIFF|CL:R2R:5//64/u<=1.5", 22 },
{ "DIFF|CL:R2R:5//64/u<=1.64", 92.9 },
{ "DIFF|CL:R2R:5//64/u<=1.8", 33.5 },
{ "DIFF|CL:R2R:5//64/u<=1e-06", 13.5 },
{ "DIFF|CL:R2R:5//64/u<=2.1", 26 },
{ "DIFF|CL:R2R:5//64/u<=2.6", 20.9 },
{ "DIFF|CL:R2R:5//64/u<=2.95", 17.1 },
{ "DIFF|CL:R2R:5//64/u<=3.1", 13.8 },
{ "DIFF|CL:R2R:5//64/v<=0.1", 13.9 },
{ "DIFF|CL:R2R:5//64/v<=0.5", 8.46 },
{ "DIFF|CL:R2R:5//64/v<=1", 6.78 },
{ "DIFF|CL:R2R:5//64/v<=1.3", 14.8 },
{ "DIFF|CL:R2R:5//64/v<=1.5", 15.5 },
{ "DIFF|CL:R2R:5//64/v<=1.64", 57.8 },
{ "DIFF|CL:R2R:5//64/v<=1.8", 15.7 },
{ "DIFF|CL:R2R:5//64/v<=1e-06", 13.6 },
{ "DIFF|CL:R2R:5//64/v<=2.1", 15.8 },
{ "DIFF|CL:R2R:5//64/v<=2.6", 8.26 },
{ "DIFF|CL:R2R:5//64/v<=2.95", 13.9 },
{ "DIFF|CL:R2R:5//64/v<=3.1", 13.5 },
{ "DIFF|CL:R2R:5//64/v<=3.141", 13.9 },
{ "DIFF|CL:R2R:5//64/v>3.141", 13.6 },
{ "DIFF|CL:R2R:6//53/t<=0.1", 8.53 },
{ "DIFF|CL:R2R:6//53/t<=0.5", 8.18 },
{ "DIFF|CL:R2R:6//53/t<=1", 7.77 },
{ "DIFF|CL:R2R:6//53/t<=1.3", 9.02 },
{ "DIFF|CL:R2R:6//53/t<=1.5", 10.8 },
{ "DIFF|CL:R2R:6//53/t<=1.64", 11.8 },
{ "DIFF|CL:R2R:6//53/t<=1.8", 9.42 },
{ "DIFF|CL:R2R:6//53/t<=1e-06", 6.94 },
{ "DIFF|CL:R2R:6//53/t<=2.1", 8.5 },
{ "DIFF|CL:R2R:6//53/t<=2.6", 8.06 },
{ "DIFF|CL:R2R:6//53/t<=2.95", 7.13 },
{ "DIFF|CL:R2R:6//53/t<=3.1", 12.6 },
{ "DIFF|CL:R2R:6//53/t<=3.141", 12.6 },
{ "DIFF|CL:R2R:6//53/t>3.141", 6.92 },
{ "DIFF|CL:R2R:6//53/u<=0.1", 12 },
{ "DIFF|CL:R2R:6//53/u<=0.5", 12.1 },
{ "DIFF|CL:R2R:6//53/u<=1", 6.93 },
{ "DIFF|CL:R2R:6//53/u<=1.3", 7.67 },
{ "DIFF|CL:R2R:6//53/u<=1.5", 13.3 },
{ "DIFF|CL:R2R:6//53/u<=1.64", 14.2 },
{ "DIFF|CL:R2R:6//53/u<=1.8", 13 },
{ "DIFF|CL:R2R:6//53/u<=1e-06", 12 },
{ "DIFF|CL:R2R:6//53/u<=2.1", 12.9 },
{ "DIFF|CL:R2R:6//53/u<=2.6", 7.66 },
{ "DIFF|CL:R2R:6//53/u<=2.95", 12.6 },
{ "DIFF|CL:R2R:6//53/u<=3.1", 12.6 },
{ "DIFF|CL:R2R:6//53/v<=0.1", 12 },
{ "DIFF|CL:R2R:6//53/v<=0.5", 6.49 },
{ "DIFF|CL:R2R:6//53/v<=1", 6.66 },
{ "DIFF|CL:R2R:6//53/v<=1.3", 7.39 },
{ "DIFF|CL:R2R:6//53/v<=1.5", 13 },
{ "DIFF|CL:R2R:6//53/v<=1.64", 9.01 },
{ "DIFF|CL:R2R:6//53/v<=1.8", 12.7 },
{ "DIFF|CL:R2R:6//53/v<=1e-06", 12 },
{ "DIFF|CL:R2R:6//53/v<=2.1", 7.04 },
{ "DIFF|CL:R2R:6//53/v<=2.6", 6.94 },
{ "DIFF|CL:R2R:6//53/v<=2.95", 6.59 },
{ "DIFF|CL:R2R:6//53/v<=3.1", 12.2 },
{ "DIFF|CL:R2R:6//53/v<=3.141", 12.2 },
{ "DIFF|CL:R2R:6//53/v>3.141", 6.35 },
{ "DIFF|CL:R2R:6//64/t<=0.1", 8.69 },
{ "DIFF|CL:R2R:6//64/t<=0.5", 8.89 },
{ "DIFF|CL:R2R:6//64/t<=1", 8.6 },
{ "DIFF|CL:R2R:6//64/t<=1.3", 172 },
{ "DIFF|CL:R2R:6//64/t<=1.5", 320 },
{ "DIFF|CL:R2R:6//64/t<=1.64", 856 },
{ "DIFF|CL:R2R:6//64/t<=1.8", 308 },
{ "DIFF|CL:R2R:6//64/t<=1e-06", 6.99 },
{ "DIFF|CL:R2R:6//64/t<=2.1", 130 },
{ "DIFF|CL:R2R:6//64/t<=2.6", 97.5 },
{ "DIFF|CL:R2R:6//64/t<=2.95", 64 },
{ "DIFF|CL:R2R:6//64/t<=3.1", 14.9 },
{ "DIFF|CL:R2R:6//64/t<=3.141", 12.8 },
{ "DIFF|CL:R2R:6//64/t>3.141", 13.4 },
{ "DIFF|CL:R2R:6//64/u<=0.1", 12 },
{ "DIFF|CL:R2R:6//64/u<=0.5", 12.2 },
{ "DIFF|CL:R2R:6//64/u<=1", 12.4 },
{ "DIFF|CL:R2R:6//64/u<=1.3", 81.4 },
{ "DIFF|CL:R2R:6//64/u<=1.5", 75.3 },
{ "DIFF|CL:R2R:6//64/u<=1.64", 839 },
{ "DIFF|CL:R2R:6//64/u<=1.8", 221 },
{ "DIFF|CL:R2R:6//64/u<=1e-06", 12 },
{ "DIFF|CL:R2R:6//64/u<=2.1", 67.7 },
{ "DIFF|CL:R2R:6//64/u<=2.6", 33.2 },
{ "DIFF|CL:R2R:6//64/u<=2.95", 40.5 },
{ "DIFF|CL:R2R:6//64/u<=3.1", 14.4 },
{ "DIFF|CL:R2R:6//64/v<=0.1", 12 },
{ "DIFF|CL:R2R:6//64/v<=0.5", 6.5 },
{ "DIFF|CL:R2R:6//64/v<=1", 6.76 },
{ "DIFF|CL:R2R:6//64/v<=1.3", 41.6 },
{ "DIFF|CL:R2R:6//64/v<=1.5", 55.6 },
{ "DIFF|CL:R2R:6//64/v<=1.64", 739 },
{ "DIFF|CL:R2R:6//64/v<=1.8", 129 },
{ "DIFF|CL:R2R:6//64/v<=1e-06", 12 },
{ "DIFF|CL:R2R:6//64/v<=2.1", 44.8 },
{ "DIFF|CL:R2R:6//64/v<=2.6", 22.9 },
{ "DIFF|CL:R2R:6//64/v<=2.95", 26.4 },
{ "DIFF|CL:R2R:6//64/v<=3.1", 12.5 },
{ "DIFF|CL:R2R:6//64/v<=3.141", 12.3 },
{ "DIFF|CL:R2R:6//64/v>3.141", 6.31 },
{ "DIFF|LI:C2C:2//24/a<=0.25", 8.44 },
{ "DIFF|LI:C2C:2//24/a<=0.75", 8.16 },
{ "DIFF|LI:C2C:2//24/a<=0.75n", 11.8 },
{ "DIFF|LI:C2C:2//24/a<=1", 8.48 },
{ "DIFF|LI:C2C:2//24/a<=1.4", 16.2 },
{ "DIFF|LI:C2C:2//24/a<=1.4h", 18.2 },
{ "DIFF|LI:C2C:2//24/a<=1.4n", 11.2 },
{ "DIFF|LI:C2C:2//24/a<=1e+10", 9.97 },
{ "DIFF|LI:C2C:2//24/a<=1h", 13.9 },
{ "DIFF|LI:C2C:2//24/a<=1n", 8.61 },
{ "DIFF|LI:C2C:2//24/a<=4", 8.88 },
{ "DIFF|LI:C2C:2//24/a<=4h", 11.5 },
{ "DIFF|LI:C2C:2//24/a<=4n", 9.46 },
{ "DIFF|LI:C2C:2//24/a>1e+10", 9.88 },
{ "DIFF|LI:C2C:2//24/r<=0.25", 13.7 },
{ "DIFF|LI:C2C:2//24/r<=0.75", 13.7 },
{ "DIFF|LI:C2C:2//24/r<=0.75n", 14.4 },
{ "DIFF|LI:C2C:2//24/r<=1", 13.8 },
{ "DIFF|LI:C2C:2//24/r<=1.4", 15.9 },
{ "DIFF|LI:C2C:2//24/r<=1e+10", 13.6 },
{ "DIFF|LI:C2C:2//24/r<=1n", 12.6 },
{ "DIFF|LI:C2C:2//24/r<=4", 12.8 },
{ "DIFF|LI:C2C:2//24/r>1e+10", 13.5 },
{ "DIFF|LI:C2C:2//53/a<=0.25", 9.32 },
{ "DIFF|LI:C2C:2//53/a<=0.75", 8.42 },
{ "DIFF|LI:C2C:2//53/a<=0.75n", 9.55 },
{ "DIFF|LI:C2C:2//53/a<=1", 8.38 },
{ "DIFF|LI:C2C:2//53/a<=1.4", 10.4 },
{ "DIFF|LI:C2C:2//53/a<=1.4h", 12.3 },
{ "DIFF|LI:C2C:2//53/a<=1.4n", 9.57 },
{ "DIFF|LI:C2C:2//53/a<=1e+10", 9.25 },
{ "DIFF|LI:C2C:2//53/a<=1h", 12.9 },
{ "DIFF|LI:C2C:2//53/a<=1n", 7.78 },
{ "DIFF|LI:C2C:2//53/a<=4", 8.41 },
{ "DIFF|LI:C2C:2//53/a<=4h", 8.86 },
{ "DIFF|LI:C2C:2//53/a<=4n", 9.02 },
{ "DIFF|LI:C2C:2//53/a>1e+10", 10.3 },
{ "DIFF|LI:C2C:2//53/r<=0.25", 13.3 },
{ "DIFF|LI:C2C:2//53/r<=0.75", 18.1 },
{ "DIFF|LI:C2C:2//53/r<=0.75n", 34.9 },
{ "DIFF|LI:C2C:2//53/r<=1", 27.9 },
{ "DIFF|LI:C2C:2//53/r<=1.4", 29 },
{ "DIFF|LI:C2C:2//53/r<=1e+10", 13.5 },
{ "DIFF|LI:C2C:2//53/r<=1n", 12.5 },
{ "DIFF|LI:C2C:2//53/r<=4", 13.3 },
{ "DIFF|LI:C2C:2//53/r>1e+10", 14.1 },
{ "DIFF|LI:C2C:2//64/a<=0.25", 8.75 },
{ "DIFF|LI:C2C:2//64/a<=0.75", 8.1 },
{ "DIFF|LI:C2C:2//64/a<=0.75n", 10.3 },
{ "DIFF|LI:C2C:2//64/a<=1", 9.13 },
{ "DIFF|LI:C2C:2//64/a<=1.4", 11.7 },
{ "DIFF|LI:C2C:2//64/a<=1.4h", 14.6 },
{ "DIFF|LI:C2C:2//64/a<=1.4n", 9.49 },
{ "DIFF|LI:C2C:2//64/a<=1e+10", 8.99 },
{ "DIFF|LI:C2C:2//64/a<=1h", 13 },
{ "DIFF|LI:C2C:2//64/a<=1n", 7.47 },
{ "DIFF|LI:C2C:2//64/a<=4", 7.61 },
{ "DIFF|LI:C2C:2//64/a<=4h", 9.56 },
{ "DIFF|LI:C2C:2//64/a<=4n", 8.26 },
{ "DIFF|LI:C2C:2//64/a>1e+10", 9.86 },
{ "DIFF|LI:C2C:2//64/r<=0.25", 13.6 },
{ "DIFF|LI:C2C:2//64/r<=0.75", 12.9 },
{ "DIFF|LI:C2C:2//64/r<=0.75n", 15 },
{ "DIFF|LI:C2C:2//64/r<=1", 13 },
{ "DIFF|LI:C2C:2//64/r<=1.4", 14.3 },
{ "DIFF|LI:C2C:2//64/r<=1e+10", 13 },
{ "DIFF|LI:C2C:2//64/r<=1n", 12.5 },
{ "DIFF|LI:C2C:2//64/r<=4", 12.8 },
{ "DIFF|LI:C2C:2//64/r>1e+10", 13.1 },
{ "DIFF|LI:C2C:3//53/a<=0.25", 8.14 },
{ "DIFF|LI:C2C:3//53/a<=0.75", 8.88 },
{ "DIFF|LI:C2C:3//53/a<=0.75n", 13.7 },
{ "DIFF|LI:C2C:3//53/a<=1", 29.5 },
{ "DIFF|LI:C2C:3//53/a<=1.4", 27.5 },
{ "DIFF|LI:C2C:3//53/a<=1.4h", 36.5 },
{ "DIFF|LI:C2C:3//53/a<=1.4n", 25.3 },
{ "DIFF|LI:C2C:3//53/a<=1e+10", 10.3 },
{ "DIFF|LI:C2C:3//53/a<=1h", 40.8 },
{ "DIFF|LI:C2C:3//53/a<=1n", 20.1 },
{ "DIFF|LI:C2C:3//53/a<=4", 8.96 },
{ "DIFF|LI:C2C:3//53/a<=4h", 9.56 },
{ "DIFF|LI:C2C:3//53/a<=4n", 7.63 },
{ "DIFF|LI:C2C:3//53/a>1e+10", 13.2 },
{ "DIFF|LI:C2C:3//53/r<=0.25", 13.3 },
{ "DIFF|LI:C2C:3//53/r<=0.75", 14 },
{ "DIFF|LI:C2C:3//53/r<=0.75n", 39.6 },
{ "DIFF|LI:C2C:3//53/r<=1", 13.6 },
{ "DIFF|LI:C2C:3//53/r<=1.4", 14 },
{ "DIFF|LI:C2C:3//53/r<=1e+10", 13.7 },
{ "DIFF|LI:C2C:3//53/r<=1n", 12.7 },
{ "DIFF|LI:C2C:3//53/r<=4", 13.3 },
{ "DIFF|LI:C2C:3//53/r>1e+10", 15.3 },
{ "DIFF|LI:C2C:3//64/a<=0.25", 9.19 },
{ "DIFF|LI:C2C:3//64/a<=0.75", 9.25 },
{ "DIFF|LI:C2C:3//64/a<=0.75n", 16.7 },
{ "DIFF|LI:C2C:3//64/a<=1", 9.06 },
{ "DIFF|LI:C2C:3//64/a<=1.4", 12.1 },
{ "DIFF|LI:C2C:3//64/a<=1.4h", 13.6 },
{ "DIFF|LI:C2C:3//64/a<=1.4n", 7.78 },
{ "DIFF|LI:C2C:3//64/a<=1e+10", 11.3 },
{ "DIFF|LI:C2C:3//64/a<=1h", 13.2 },
{ "DIFF|LI:C2C:3//64/a<=1n", 8.36 },
{ "DIFF|LI:C2C:3//64/a<=4", 9.03 },
{ "DIFF|LI:C2C:3//64/a<=4h", 9.83 },
{ "DIFF|LI:C2C:3//64/a<=4n", 7.67 },
{ "DIFF|LI:C2C:3//64/a>1e+10", 14 },
{ "DIFF|LI:C2C:3//64/r<=0.25", 13.2 },
{ "DIFF|LI:C2C:3//64/r<=0.75", 13.3 },
{ "DIFF|LI:C2C:3//64/r<=0.75n", 14.2 },
{ "DIFF|LI:C2C:3//64/r<=1", 12.9 },
{ "DIFF|LI:C2C:3//64/r<=1.4", 13.3 },
{ "DIFF|LI:C2C:3//64/r<=1e+10", 13.1 },
{ "DIFF|LI:C2C:3//64/r<=1n", 12.6 },
{ "DIFF|LI:C2C:3//64/r<=4", 13.1 },
{ "DIFF|LI:C2C:3//64/r>1e+10", 17.1 },
{ "DIFF|LI:C2C:4//53/a<=0.25", 8.06 },
{ "DIFF|LI:C2C:4//53/a<=0.75", 9.4 },
{ "DIFF|LI:C2C:4//53/a<=0.75n", 19.7 },
{ "DIFF|LI:C2C:4//53/a<=1", 16.4 },
{ "DIFF|LI:C2C:4//53/a<=1.4", 25.9 },
{ "DIFF|LI:C2C:4//53/a<=1.4h", 30.8 },
{ "DIFF|LI:C2C:4//53/a<=1.4n", 12.6 },
{ "DIFF|LI:C2C:4//53/a<=1e+10", 14.4 },
{ "DIFF|LI:C2C:4//53/a<=1h", 26.4 },
{ "DIFF|LI:C2C:4//53/a<=1n", 15.2 },
{ "DIFF|LI:C2C:4//53/a<=4", 9.19 },
{ "DIFF|LI:C2C:4//53/a<=4h", 14.8 },
{ "DIFF|LI:C2C:4//53/a<=4n", 10.5 },
{ "DIFF|LI:C2C:4//53/a>1e+10", 18.8 },
{ "DIFF|LI:C2C:4//53/r<=0.25", 13.7 },
{ "DIFF|LI:C2C:4//53/r<=0.75", 13.9 },
{ "DIFF|LI:C2C:4//53/r<=0.75n", 289 },
{ "DIFF|LI:C2C:4//53/r<=1", 13.6 },
{ "DIFF|LI:C2C:4//53/r<=1.4", 13.4 },
{ "DIFF|LI:C2C:4//53/r<=1e+10", 15.6 },
{ "DIFF|LI:C2C:4//53/r<=1n", 365 },
{ "DIFF|LI:C2C:4//53/r<=4", 13.1 },
{ "DIFF|LI:C2C:4//53/r>1e+10", 21.8 },
{ "DIFF|LI:C2C:4//64/a<=0.25", 9.12 },
{ "DIFF|LI:C2C:4//64/a<=0.75", 9.29 },
{ "DIFF|LI:C2C:4//64/a<=0.75n", 18.8 },
{ "DIFF|LI:C2C:4//64/a<=1", 9.03 },
{ "DIFF|LI:C2C:4//64/a<=1.4", 15.6 },
{ "DIFF|LI:C2C:4//64/a<=1.4h", 16.8 },
{ "DIFF|LI:C2C:4//64/a<=1.4n", 7.83 },
{ "DIFF|LI:C2C:4//64/a<=1e+10", 13.6 },
{ "DIFF|LI:C2C:4//64/a<=1h", 13.8 },
{ "DIFF|LI:C2C:4//64/a<=1n", 7.81 },
{ "DIFF|LI:C2C:4//64/a<=4", 9.59 },
{ "DIFF|LI:C2C:4//64/a<=4h", 11.1 },
{ "DIFF|LI:C2C:4//64/a<=4n", 8.45 },
{ "DIFF|LI:C2C:4//64/a>1e+10", 20.6 },
{ "DIFF|LI:C2C:4//64/r<=0.25", 13.4 },
{ "DIFF|LI:C2C:4//64/r<=0.75", 13.4 },
{ "DIFF|LI:C2C:4//64/r<=0.75n", 17.1 },
{ "DIFF|LI:C2C:4//64/r<=1", 13.4 },
{ "DIFF|LI:C2C:4//64/r<=1.4", 14.1 },
{ "DIFF|LI:C2C:4//64/r<=1e+10", 17 },
{ "DIFF|LI:C2C:4//64/r<=1n", 12.6 },
{ "DIFF|LI:C2C:4//64/r<=4", 13.3 },
{ "DIFF|LI:C2C:4//64/r>1e+10", 26.6 },
{ "DIFF|LI:C2C:5//53/a<=0.25", 8.39 },
{ "DIFF|LI:C2C:5//53/a<=0.75", 8.27 },
{ "DIFF|LI:C2C:5//53/a<=0.75n", 10.3 },
{ "DIFF|LI:C2C:5//53/a<=1", 8.95 },
{ "DIFF|LI:C2C:5//53/a<=1.4", 17.1 },
{ "DIFF|LI:C2C:5//53/a<=1.4h", 17.8 },
{ "DIFF|LI:C2C:5//53/a<=1.4n", 11.6 },
{ "DIFF|LI:C2C:5//53/a<=1e+10", 15.1 },
{ "DIFF|LI:C2C:5//53/a<=1h", 14.5 },
{ "DIFF|LI:C2C:5//53/a<=1n", 8.27 },
{ "DIFF|LI:C2C:5//53/a<=4", 9.68 },
{ "DIFF|LI:C2C:5//53/a<=4h", 13.4 },
{ "DIFF|LI:C2C:5//53/a<=4n", 8.83 },
{ "DIFF|LI:C2C:5//53/a>1e+10", 21.2 },
{ "DIFF|LI:C2C:5//53/r<=0.25", 13.3 },
{ "DIFF|LI:C2C:5//53/r<=0.75", 13.4 },
{ "DIFF|LI:C2C:5//53/r<=0.75n", 13.3 },
{ "DIFF|LI:C2C:5//53/r<=1", 13.5 },
{ "DIFF|LI:C2C:5//53/r<=1.4", 13.5 },
{ "DIFF|LI:C2C:5//53/r<=1e+10", 18.2 },
{ "DIFF|LI:C2C:5//53/r<=1n", 12.6 },
{ "DIFF|LI:C2C:5//53/r<=4", 13.2 },
{ "DIFF|LI:C2C:5//53/r>1e+10", 26.1 },
{ "DIFF|LI:C2C:5//64/a<=0.25", 8.96 },
{ "DIFF|LI:C2C:5//64/a<=0.75", 8.59 },
{ "DIFF|LI:C2C:5//64/a<=0.75n", 9.17 },
{ "DIFF|LI:C2C:5//64/a<=1", 10.3 },
{ "DIFF|LI:C2C:5//64/a<=1.4", 21.7 },
{ "DIFF|LI:C2C:5//64/a<=1.4h", 22.4 },
{ "DIFF|LI:C2C:5//64/a<=1.4n", 8.8 },
{ "DIFF|LI:C2C:5//64/a<=1e+10", 16.1 },
{ "DIFF|LI:C2C:5//64/a<=1h", 14.6 },
{ "DIFF|LI:C2C:5//64/a<=1n", 8.47 },
{ "DIFF|LI:C2C:5//64/a<=4", 12 },
{ "DIFF|LI:C2C:5//64/a<=4h", 15.1 },
{ "DIFF|LI:C2C:5//64/a<=4n", 8.17 },
{ "DIFF|LI:C2C:5//64/a>1e+10", 22.7 },
{ "DIFF|LI:C2C:5//64/r<=0.25", 13 },
{ "DIFF|LI:C2C:5//64/r<=0.75", 13.9 },
{ "DIFF|LI:C2C:5//64/r<=0.75n", 13.5 },
{ "DIFF|LI:C2C:5//64/r<=1", 13 },
{ "DIFF|LI:C2C:5//64/r<=1.4", 12.9 },
{ "DIFF|LI:C2C:5//64/r<=1e+10", 18 },
{ "DIFF|LI:C2C:5//64/r<=1n", 12.6 },
{ "DIFF|LI:C2C:5//64/r<=4", 13.3 },
{ "DIFF|LI:C2C:5//64/r>1e+10", 29.2 },
{ "DIFF|LI:C2C:6//53/a<=0.25", 8.11 },
{ "DIFF|LI:C2C:6//53/a<=0.75", 9.04 },
{ "DIFF|LI:C2C:6//53/a<=0.75n", 14.9 },
{ "DIFF|LI:C2C:6//53/a<=1", 9.16 },
{ "DIFF|LI:C2C:6//53/a<=1.4", 19.4 },
{ "DIFF|LI:C2C:6//53/a<=1.4h", 19 },
{ "DIFF|LI:C2C:6//53/a<=1.4n", 9.82 },
{ "DIFF|LI:C2C:6//53/a<=1e+10", 20 },
{ "DIFF|LI:C2C:6//53/a<=1h", 14.9 },
{ "DIFF|LI:C2C:6//53/a<=1n", 8.46 },
{ "DIFF|LI:C2C:6//53/a<=4", 8.55 },
{ "DIFF|LI:C2C:6//53/a<=4h", 12.7 },
{ "DIFF|LI:C2C:6//53/a<=4n", 9.81 },
{ "DIFF|LI:C2C:6//53/a>1e+10", 26.1 },
{ "DIFF|LI:C2C:6//53/r<=0.25", 13.3 },
{ "DIFF|LI:C2C:6//53/r<=0.75", 13.7 },
{ "DIFF|LI:C2C:6//53/r<=0.75n", 13.2 },
{ "DIFF|LI:C2C:6//53/r<=1", 13.2 },
{ "DIFF|LI:C2C:6//53/r<=1.4", 13.3 },
{ "DIFF|LI:C2C:6//53/r<=1e+10", 20.8 },
{ "DIFF|LI:C2C:6//53/r<=1n", 12.6 },
{ "DIFF|LI:C2C:6//53/r<=4", 13.2 },
{ "DIFF|LI:C2C:6//53/r>1e+10", 30.2 },
{ "DIFF|LI:C2C:6//64/a<=0.25", 8.82 },
{ "DIFF|LI:C2C:6//64/a<=0.75", 8.6 },
{ "DIFF|LI:C2C:6//64/a<=0.75n", 9.31 },
{ "DIFF|LI:C2C:6//64/a<=1", 10.5 },
{ "DIFF|LI:C2C:6//64/a<=1.4", 24 },
{ "DIFF|LI:C2C:6//64/a<=1.4h", 28 },
{ "DIFF|LI:C2C:6//64/a<=1.4n", 10.9 },
{ "DIFF|LI:C2C:6//64/a<=1e+10", 18.2 },
{ "DIFF|LI:C2C:6//64/a<=1h", 14.7 },
{ "DIFF|LI:C2C:6//64/a<=1n", 8.44 },
{ "DIFF|LI:C2C:6//64/a<=4", 10.4 },
{ "DIFF|LI:C2C:6//64/a<=4h", 17.1 },
{ "DIFF|LI:C2C:6//64/a<=4n", 8.54 },
{ "DIFF|LI:C2C:6//64/a>1e+10", 27.2 },
{ "DIFF|LI:C2C:6//64/r<=0.25", 13.5 },
{ "DIFF|LI:C2C:6//64/r<=0.75", 13.7 },
{ "DIFF|LI:C2C:6//64/r<=0.75n", 12.8 },
{ "DIFF|LI:C2C:6//64/r<=1", 13.8 },
{ "DIFF|LI:C2C:6//64/r<=1.4", 13.7 },
{ "DIFF|LI:C2C:6//64/r<=1e+10", 22.2 },
{ "DIFF|LI:C2C:6//64/r<=1n", 12.5 },
{ "DIFF|LI:C2C:6//64/r<=4", 13.1 },
{ "DIFF|LI:C2C:6//64/r>1e+10", 38 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a<=0.3", 18.8 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a<=0.6", 14.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a<=1", 15.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a<=1.7", 14.3 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a<=4", 15.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=10a>4", 26.8 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a<=0.3", 13.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a<=0.6", 13 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a<=1", 13.5 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a<=1.7", 14.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a<=4", 13.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=1a>4", 12.9 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a<=0.3", 31.9 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a<=0.6", 16.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a<=1", 13.3 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a<=1.7", 12.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a<=4", 18 },
{ "DIFF|LI:NC2C:0/-1/53/m<=20a>4", 32.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a<=0.3", 13.6 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a<=0.6", 13.5 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a<=1", 16.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a<=1.7", 16.9 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a<=4", 14.2 },
{ "DIFF|LI:NC2C:0/-1/53/m<=2a>4", 14.9 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a<=0.3", 44.3 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a<=0.6", 18.9 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a<=1", 12.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a<=1.7", 12.7 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a<=4", 13.8 },
{ "DIFF|LI:NC2C:0/-1/53/m<=40a>4", 35.1 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a<=0.3", 21.8 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a<=0.6", 17.2 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a<=1", 17.3 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a<=1.7", 14.6 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a<=4", 16.3 },
{ "DIFF|LI:NC2C:0/-1/53/m<=5a>4", 20.9 },
{ "DIFF|LI:NC2C:0/0/53/a<=0.25", 12.9 },
{ "DIFF|LI:NC2C:0/0/53/a<=0.75", 12.8 },
{ "DIFF|LI:NC2C:0/0/53/a<=0.75n", 12.7 },
{ "DIFF|LI:NC2C:0/0/53/a<=1", 13 },
{ "DIFF|LI:NC2C:0/0/53/a<=1.4", 13.3 },
{ "DIFF|LI:NC2C:0/0/53/a<=1.4h", 12.9 },
{ "DIFF|LI:NC2C:0/0/53/a<=1.4n", 12.6 },
{ "DIFF|LI:NC2C:0/0/53/a<=1e+10", 13.3 },
{ "DIFF|LI:NC2C:0/0/53/a<=1h", 12.8 },
{ "DIFF|LI:NC2C:0/0/53/a<=1n", 12.6 },
{ "DIFF|LI:NC2C:0/0/53/a<=4", 13.2 },
{ "DIFF|LI:NC2C:0/0/53/a<=4h", 13 },
{ "DIFF|LI:NC2C:0/0/53/a<=4n", 12.7 },
{ "DIFF|LI:NC2C:0/0/53/a>1e+10", 12.7 },
{ "DIFF|LI:NC2C:0/0/53/r<=0.25", 12.8 },
{ "DIFF|LI:NC2C:0/0/53/r<=0.75", 12.8 },
{ "DIFF|LI:NC2C:0/0/53/r<=0.75n", 12.6 },
{ "DIFF|LI:NC2C:0/0/53/r<=1", 12.7 },
{ "DIFF|LI:NC2C:0/0/53/r<=1.4", 13.3 },
{ "DIFF|LI:NC2C:0/0/53/r<=1e+10", 13.1 },
{ "DIFF|LI:NC2C:0/0/53/r<=1n", 12.1 },
{ "DIFF|LI:NC2C:0/0/53/r<=4", 13.2 },
{ "DIFF|LI:NC2C:0/0/53/r>1e+10", 13.5 },
{ "DIFF|LI:NC2C:0/1/53/a<=0.25", 12.9 },
{ "DIFF|LI:NC2C:0/1/53/a<=0.75", 13.1 },
{ "DIFF|LI:NC2C:0/1/53/a<=0.75n", 12.7 },
{ "DIFF|LI:NC2C:0/1/53/a<=1", 12.9 },
{ "DIFF|LI:NC2C:0/1/53/a<=1.4", 13.1 },
{ "DIFF|LI:NC2C:0/1/53/a<=1.4h", 12.5 },
{ "DIFF|LI:NC2C:0/1/53/a<=1.4n", 12.4 },
{ "DIFF|LI:NC2C:0/1/53/a<=1e+10", 13.1 },
{ "DIFF|LI:NC2C:0/1/53/a<=1h", 12.6 },
{ "DIFF|LI:NC2C:0/1/53/a<=1n", 12.5 },
{ "DIFF|LI:NC2C:0/1/53/a<=4", 13 },
{ "DIFF|LI:NC2C:0/1/53/a<=4h", 12.5 },
{ "DIFF|LI:NC2C:0/1/53/a<=4n", 12.5 },
{ "DIFF|LI:NC2C:0/1/53/a>1e+10", 12.8 },
{ "DIFF|LI:NC2C:0/1/53/r<=0.25", 13.8 },
{ "DIFF|LI:NC2C:0/1/53/r<=0.75", 13.4 },
{ "DIFF|LI:NC2C:0/1/53/r<=0.75n", 13.3 },
{ "DIFF|LI:NC2C:0/1/53/r<=1", 13 },
{ "DIFF|LI:NC2C:0/1/53/r<=1.4", 13.1 },
{ "DIFF|LI:NC2C:0/1/53/r<=1e+10", 13.3 },
{ "DIFF|LI:NC2C:0/1/53/r<=1n", 12.2 },
{ "DIFF|LI:NC2C:0/1/53/r<=4", 13.7 },
{ "DIFF|LI:NC2C:0/1/53/r>1e+10", 14.5 },
{ "DIFF|LI:NC2C:0/2/53/a<=0.25", 13.6 },
{ "DIFF|LI:NC2C:0/2/53/a<=0.75", 13.5 },
{ "DIFF|LI:NC2C:0/2/53/a<=0.75n", 14 },
{ "DIFF|LI:NC2C:0/2/53/a<=1", 13.6 },
{ "DIFF|LI:NC2C:0/2/53/a<=1.4", 14.6 },
{ "DIFF|LI:NC2C:0/2/53/a<=1.4h", 16.3 },
{ "DIFF|LI:NC2C:0/2/53/a<=1.4n", 14.1 },
{ "DIFF|LI:NC2C:0/2/53/a<=1e+10", 14.6 },
{ "DIFF|LI:NC2C:0/2/53/a<=1h", 14.4 },
{ "DIFF|LI:NC2C:0/2/53/a<=1n", 13.2 },
{ "DIFF|LI:NC2C:0/2/53/a<=4", 13.3 },
{ "DIFF|LI:NC2C:0/2/53/a<=4h", 13.9 },
{ "DIFF|LI:NC2C:0/2/53/a<=4n", 13.8 },
{ "DIFF|LI:NC2C:0/2/53/a>1e+10", 15.1 },
{ "DIFF|LI:NC2C:0/2/53/r<=0.25", 14.7 },
{ "DIFF|LI:NC2C:0/2/53/r<=0.75", 24.1 },
{ "DIFF|LI:NC2C:0/2/53/r<=0.75n", 46.6 },
{ "DIFF|LI:NC2C:0/2/53/r<=1", 37.2 },
{ "DIFF|LI:NC2C:0/2/53/r<=1.4", 38.6 },
{ "DIFF|LI:NC2C:0/2/53/r<=1e+10", 15.8 },
{ "DIFF|LI:NC2C:0/2/53/r<=1n", 13.3 },
{ "DIFF|LI:NC2C:0/2/53/r<=4", 15.4 },
{ "DIFF|LI:NC2C:0/200+/53/a<=0.25", 7.4 },
{ "DIFF|LI:NC2C:0/200+/53/a<=0.75", 9.64 },
{ "DIFF|LI:NC2C:0/200+/53/a<=0.75n", 7.13 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1", 28.7 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1.4", 23.1 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1.4h", 14.1 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1.4n", 14.1 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1e+10", 9.01 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1h", 13.5 },
{ "DIFF|LI:NC2C:0/200+/53/a<=1n", 9.27 },
{ "DIFF|LI:NC2C:0/200+/53/a<=4", 14.4 },
{ "DIFF|LI:NC2C:0/200+/53/a<=4h", 13.7 },
{ "DIFF|LI:NC2C:0/200+/53/a<=4n", 19.5 },
{ "DIFF|LI:NC2C:0/200+/53/a>1e+10", 7.87 },
{ "DIFF|LI:NC2C:0/200+/53/r<=0.25", 12 },
{ "DIFF|LI:NC2C:0/200+/53/r<=0.75", 13.9 },
{ "DIFF|LI:NC2C:0/200+/53/r<=0.75n", 12.3 },
{ "DIFF|LI:NC2C:0/200+/53/r<=1", 38 },
{ "DIFF|LI:NC2C:0/200+/53/r<=1.4", 32.2 },
{ "DIFF|LI:NC2C:0/200+/53/r<=1e+10", 12.7 },
{ "DIFF|LI:NC2C:0/200+/53/r<=1n", 12.9 },
{ "DIFF|LI:NC2C:0/200+/53/r<=4", 13.8 },
{ "DIFF|LI:NC2C:0/200+/53/r>1e+10", 12.8 },
{ "DIFF|LI:NC2C:0/3/53/a<=0.25", 13.7 },
{ "DIFF|LI:NC2C:0/3/53/a<=0.75", 15.3 },
{ "DIFF|LI:NC2C:0/3/53/a<=0.75n", 16.5 },
{ "DIFF|LI:NC2C:0/3/53/a<=1", 39.3 },
{ "DIFF|LI:NC2C:0/3/53/a<=1.4", 36.7 },
{ "DIFF|LI:NC2C:0/3/53/a<=1.4h", 58.4 },
{ "DIFF|LI:NC2C:0/3/53/a<=1.4n", 37.9 },
{ "DIFF|LI:NC2C:0/3/53/a<=1e+10", 15.5 },
{ "DIFF|LI:NC2C:0/3/53/a<=1h", 52.8 },
{ "DIFF|LI:NC2C:0/3/53/a<=1n", 30.2 },
{ "DIFF|LI:NC2C:0/3/53/a<=4", 14.4 },
{ "DIFF|LI:NC2C:0/3/53/a<=4h", 13.9 },
{ "DIFF|LI:NC2C:0/3/53/a<=4n", 13.3 },
{ "DIFF|LI:NC2C:0/3/53/a>1e+10", 19.1 },
{ "DIFF|LI:NC2C:0/3/53/r<=0.25", 14.8 },
{ "DIFF|LI:NC2C:0/3/53/r<=0.75", 16.4 },
{ "DIFF|LI:NC2C:0/3/53/r<=0.75n", 52.8 },
{ "DIFF|LI:NC2C:0/3/53/r<=1", 14.3 },
{ "DIFF|LI:NC2C:0/3/53/r<=1.4", 14.4 },
{ "DIFF|LI:NC2C:0/3/53/r<=1e+10", 15.9 },
{ "DIFF|LI:NC2C:0/3/53/r<=1n", 13.9 },
{ "DIFF|LI:NC2C:0/3/53/r<=4", 13.7 },
{ "DIFF|LI:NC2C:0/3/53/r>1e+10", 19.1 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=0.25", 8.05 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=0.75", 10.1 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=0.75n", 7.22 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1", 36.3 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1.4", 29.2 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1.4h", 14.2 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1.4n", 25.5 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1e+10", 9.17 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1h", 13.4 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=1n", 9.33 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=4", 13.5 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=4h", 14.4 },
{ "DIFF|LI:NC2C:0/30-199/53/a<=4n", 23.3 },
{ "DIFF|LI:NC2C:0/30-199/53/a>1e+10", 7.87 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=0.25", 12.8 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=0.75", 14.3 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=0.75n", 12.6 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=1", 39.4 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=1.4", 40.2 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=1e+10", 12.6 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=1n", 12.9 },
{ "DIFF|LI:NC2C:0/30-199/53/r<=4", 13.8 },
{ "DIFF|LI:NC2C:0/30-199/53/r>1e+10", 13 },
{ "DIFF|LI:NC2C:0/4/53/a<=0.25", 14 },
{ "DIFF|LI:NC2C:0/4/53/a<=0.75", 15.1 },
{ "DIFF|LI:NC2C:0/4/53/a<=0.75n", 23.6 },
{ "DIFF|LI:NC2C:0/4/53/a<=1", 19.6 },
{ "DIFF|LI:NC2C:0/4/53/a<=1.4", 31 },
{ "DIFF|LI:NC2C:0/4/53/a<=1.4h", 49.3 },
{ "DIFF|LI:NC2C:0/4/53/a<=1.4n", 18.9 },
{ "DIFF|LI:NC2C:0/4/53/a<=1e+10", 21.6 },
{ "DIFF|LI:NC2C:0/4/53/a<=1h", 35.2 },
{ "DIFF|LI:NC2C:0/4/53/a<=1n", 22.8 },
{ "DIFF|LI:NC2C:0/4/53/a<=4", 14.1 },
{ "DIFF|LI:NC2C:0/4/53/a<=4h", 17.7 },
{ "DIFF|LI:NC2C:0/4/53/a<=4n", 15.8 },
{ "DIFF|LI:NC2C:0/4/53/a>1e+10", 28.2 },
{ "DIFF|LI:NC2C:0/4/53/r<=0.25", 14.9 },
{ "DIFF|LI:NC2C:0/4/53/r<=0.75", 15.8 },
{ "DIFF|LI:NC2C:0/4/53/r<=0.75n", 385 },
{ "DIFF|LI:NC2C:0/4/53/r<=1", 14.5 },
{ "DIFF|LI:NC2C:0/4/53/r<=1.4", 15 },
{ "DIFF|LI:NC2C:0/4/53/r<=1e+10", 20.8 },
{ "DIFF|LI:NC2C:0/4/53/r<=1n", 486 },
{ "DIFF|LI:NC2C:0/4/53/r<=4", 14 },
{ "DIFF|LI:NC2C:0/4/53/r>1e+10", 29 },
{ "DIFF|LI:NC2C:0/5/53/a<=0.25", 13.9 },
{ "DIFF|LI:NC2C:0/5/53/a<=0.75", 13.6 },
{ "DIFF|LI:NC2C:0/5/53/a<=0.75n", 13.9 },
{ "DIFF|LI:NC2C:0/5/53/a<=1", 14.8 },
{ "DIFF|LI:NC2C:0/5/53/a<=1.4", 20.6 },
{ "DIFF|LI:NC2C:0/5/53/a<=1.4h", 28.5 },
{ "DIFF|LI:NC2C:0/5/53/a<=1.4n", 17.4 },
{ "DIFF|LI:NC2C:0/5/53/a<=1e+10", 22.7 },
{ "DIFF|LI:NC2C:0/5/53/a<=1h", 14.5 },
{ "DIFF|LI:NC2C:0/5/53/a<=1n", 14.3 },
{ "DIFF|LI:NC2C:0/5/53/a<=4", 14.1 },
{ "DIFF|LI:NC2C:0/5/53/a<=4h", 16.1 },
{ "DIFF|LI:NC2C:0/5/53/a<=4n", 14 },
{ "DIFF|LI:NC2C:0/5/53/a>1e+10", 31 },
{ "DIFF|LI:NC2C:0/5/53/r<=0.25", 14.2 },
{ "DIFF|LI:NC2C:0/5/53/r<=0.75", 14.2 },
{ "DIFF|LI:NC2C:0/5/53/r<=0.75n", 15 },
{ "DIFF|LI:NC2C:0/5/53/r<=1", 13.9 },
{ "DIFF|LI:NC2C:0/5/53/r<=1.4", 14 },
{ "DIFF|LI:NC2C:0/5/53/r<=1e+10", 24.3 },
{ "DIFF|LI:NC2C:0/5/53/r<=1n", 13.2 },
{ "DIFF|LI:NC2C:0/5/53/r<=4", 14.3 },
{ "DIFF|LI:NC2C:0/5/53/r>1e+10", 34.8 },
{ "DIFF|LI:NC2C:0/6/53/a<=0.25", 13.6 },
{ "DIFF|LI:NC2C:0/6/53/a<=0.75", 14.4 },
{ "DIFF|LI:NC2C:0/6/53/a<=0.75n", 17.9 },
{ "DIFF|LI:NC2C:0/6/53/a<=1", 14.9 },
{ "DIFF|LI:NC2C:0/6/53/a<=1.4", 23.2 },
{ "DIFF|LI:NC2C:0/6/53/a<=1.4h", 30.5 },
{ "DIFF|LI:NC2C:0/6/53/a<=1.4n", 14.5 },
{ "DIFF|LI:NC2C:0/6/53/a<=1e+10", 29.9 },
{ "DIFF|LI:NC2C:0/6/53/a<=1h", 15.1 },
{ "DIFF|LI:NC2C:0/6/53/a<=1n", 14.5 },
{ "DIFF|LI:NC2C:0/6/53/a<=4", 13.9 },
{ "DIFF|LI:NC2C:0/6/53/a<=4h", 15.3 },
{ "DIFF|LI:NC2C:0/6/53/a<=4n", 14.4 },
{ "DIFF|LI:NC2C:0/6/53/a>1e+10", 39.1 },
{ "DIFF|LI:NC2C:0/6/53/r<=0.25", 14.3 },
{ "DIFF|LI:NC2C:0/6/53/r<=0.75", 14.5 },
{ "DIFF|LI:NC2C:0/6/53/r<=0.75n", 16.9 },
{ "DIFF|LI:NC2C:0/6/53/r<=1", 14.4 },
{ "DIFF|LI:NC2C:0/6/53/r<=1.4", 15.6 },
{ "DIFF|LI:NC2C:0/6/53/r<=1e+10", 27.7 },
{ "DIFF|LI:NC2C:0/6/53/r<=1n", 13.8 },
{ "DIFF|LI:NC2C:0/6/53/r<=4", 14.8 },
{ "DIFF|LI:NC2C:0/6/53/r>1e+10", 40.3 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=0.25", 7.98 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=0.75", 17.7 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=0.75n", 8.8 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1", 27.2 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1.4", 20.2 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1.4h", 14.5 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1.4n", 12.7 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1e+10", 7.57 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1h", 13.3 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=1n", 8.29 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=4", 11.1 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=4h", 11.1 },
{ "DIFF|LI:NC2C:0/7-29/53/a<=4n", 19.7 },
{ "DIFF|LI:NC2C:0/7-29/53/a>1e+10", 7.38 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=0.25", 12.8 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=0.75", 24.9 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=0.75n", 13.8 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=1", 24.6 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=1.4", 21.5 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=1e+10", 12.8 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=1n", 13.7 },
{ "DIFF|LI:NC2C:0/7-29/53/r<=4", 15.1 },
{ "DIFF|LI:NC2C:0/7-29/53/r>1e+10", 12.7 },
{ "DIFF|LI:R2R:2//24/x<=-1", 9.52 },
{ "DIFF|LI:R2R:2//24/x<=0", 9.14 },
{ "DIFF|LI:R2R:2//24/x<=0.5", 9.35 },
{ "DIFF|LI:R2R:2//24/x<=0.6", 12.7 },
{ "DIFF|LI:R2R:2//24/x<=0.7", 9.5 },
{ "DIFF|LI:R2R:2//24/x<=0.8", 8.16 },
{ "DIFF|LI:R2R:2//24/x<=1", 6.65 },
{ "DIFF|LI:R2R:2//53/x<=-1", 24.9 },
{ "DIFF|LI:R2R:2//53/x<=0", 24.1 },
{ "DIFF|LI:R2R:2//53/x<=0.5", 28.9 },
{ "DIFF|LI:R2R:2//53/x<=0.6", 36.8 },
{ "DIFF|LI:R2R:2//53/x<=0.7", 12.3 },
{ "DIFF|LI:R2R:2//53/x<=0.8", 7.11 },
{ "DIFF|LI:R2R:2//53/x<=1", 6.67 },
{ "DIFF|LI:R2R:2//64/x<=-1", 11.6 },
{ "DIFF|LI:R2R:2//64/x<=0", 9.88 },
{ "DIFF|LI:R2R:2//64/x<=0.5", 10.6 },
{ "DIFF|LI:R2R:2//64/x<=0.6", 16 },
{ "DIFF|LI:R2R:2//64/x<=0.7", 8.7 },
{ "DIFF|LI:R2R:2//64/x<=0.8", 7.71 },
{ "DIFF|LI:R2R:2//64/x<=1", 6.64 },
{ "DIFF|LI:R2R:3//53/x<=-1", 11.2 },
{ "DIFF|LI:R2R:3//53/x<=0", 7.99 },
{ "DIFF|LI:R2R:3//53/x<=0.5", 22.8 },
{ "DIFF|LI:R2R:3//53/x<=0.6", 36.7 },
{ "DIFF|LI:R2R:3//53/x<=0.7", 16.3 },
{ "DIFF|LI:R2R:3//53/x<=0.8", 7.98 },
{ "DIFF|LI:R2R:3//53/x<=1", 7.24 },
{ "DIFF|LI:R2R:4//53/x<=-1", 16.2 },
{ "DIFF|LI:R2R:4//53/x<=0", 8.34 },
{ "DIFF|LI:R2R:4//53/x<=0.5", 48 },
{ "DIFF|LI:R2R:4//53/x<=0.6", 87.5 },
{ "DIFF|LI:R2R:4//53/x<=0.7", 159 },
{ "DIFF|LI:R2R:4//53/x<=0.8", 324 },
{ "DIFF|LI:R2R:4//53/x<=1", 177 },
{ "DIFF|SL:NR2R:0/2/53/t<=0.1", 12.6 },
{ "DIFF|SL:NR2R:0/2/53/t<=0.5", 12.8 },
{ "DIFF|SL:NR2R:0/2/53/t<=1", 12.8 },
{ "DIFF|SL:NR2R:0/2/53/t<=1.3", 13.2 },
{ "DIFF|SL:NR2R:0/2/53/t<=1.5", 13.3 },
{ "DIFF|SL:NR2R:0/2/53/t<=1.64", 13.5 },
{ "DIFF|SL:NR2R:0/2/53/t<=1.8", 13.4 },
{ "DIFF|SL:NR2R:0/2/53/t<=1e-06", 12.6 },
{ "DIFF|SL:NR2R:0/2/53/t<=2.1", 14 },
{ "DIFF|SL:NR2R:0/2/53/t<=2.6", 14.1 },
{ "DIFF|SL:NR2R:0/2/53/t<=2.95", 13.3 },
{ "DIFF|SL:NR2R:0/2/53/t<=3.1", 13.4 },
{ "DIFF|SL:NR2R:0/2/53/t<=3.141", 13.9 },
{ "DIFF|SL:NR2R:0/2/53/t>3.141", 14.1 },
{ "DIFF|SL:NR2R:0/2/53/u<=0.1", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/u<=0.5", 12.2 },
{ "DIFF|SL:NR2R:0/2/53/u<=1", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/u<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/2/53/u<=1.5", 12.2 },
{ "DIFF|SL:NR2R:0/2/53/u<=1.64", 12.4 },
{ "DIFF|SL:NR2R:0/2/53/u<=1.8", 12.7 },
{ "DIFF|SL:NR2R:0/2/53/u<=1e-06", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/u<=2.1", 13 },
{ "DIFF|SL:NR2R:0/2/53/u<=2.6", 13.4 },
{ "DIFF|SL:NR2R:0/2/53/u<=2.95", 13.2 },
{ "DIFF|SL:NR2R:0/2/53/u<=3.1", 13.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=0.1", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=0.5", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=1", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=1.3", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=1.5", 12.1 },
{ "DIFF|SL:NR2R:0/2/53/v<=1.64", 12.2 },
{ "DIFF|SL:NR2R:0/2/53/v<=1.8", 12.2 },
{ "DIFF|SL:NR2R:0/2/53/v<=1e-06", 12 },
{ "DIFF|SL:NR2R:0/2/53/v<=2.1", 12.3 },
{ "DIFF|SL:NR2R:0/2/53/v<=2.6", 12.4 },
{ "DIFF|SL:NR2R:0/2/53/v<=2.95", 12.9 },
{ "DIFF|SL:NR2R:0/2/53/v<=3.1", 12.6 },
{ "DIFF|SL:NR2R:0/2/53/v<=3.141", 13.7 },
{ "DIFF|SL:NR2R:0/2/53/v>3.141", 13.5 },
{ "DIFF|SL:NR2R:0/200+/53/t<=0.1", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/t<=0.5", 6.49 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1", 6.53 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1.3", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1.5", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1.64", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1.8", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/t<=1e-06", 6.47 },
{ "DIFF|SL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "DIFF|SL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "DIFF|SL:NR2R:0/200+/53/t<=2.95", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/t<=3.1", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/t<=3.141", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/t>3.141", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/u<=0.1", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/u<=0.5", 12.2 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1", 12.1 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1.5", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1.64", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1.8", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/u<=1e-06", 12.4 },
{ "DIFF|SL:NR2R:0/200+/53/u<=2.1", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "DIFF|SL:NR2R:0/200+/53/u<=2.95", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/u<=3.1", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/v<=0.1", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1", 6.38 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1.3", 12.1 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1.5", 12.2 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1.8", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/v<=1e-06", 12.5 },
{ "DIFF|SL:NR2R:0/200+/53/v<=2.1", 12.1 },
{ "DIFF|SL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "DIFF|SL:NR2R:0/200+/53/v<=2.95", 12.1 },
{ "DIFF|SL:NR2R:0/200+/53/v<=3.1", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/v<=3.141", 12.3 },
{ "DIFF|SL:NR2R:0/200+/53/v>3.141", 12.5 },
{ "DIFF|SL:NR2R:0/3/53/t<=0.1", 12.5 },
{ "DIFF|SL:NR2R:0/3/53/t<=0.5", 12.6 },
{ "DIFF|SL:NR2R:0/3/53/t<=1", 12.9 },
{ "DIFF|SL:NR2R:0/3/53/t<=1.3", 12.9 },
{ "DIFF|SL:NR2R:0/3/53/t<=1.5", 13 },
{ "DIFF|SL:NR2R:0/3/53/t<=1.64", 13.2 },
{ "DIFF|SL:NR2R:0/3/53/t<=1.8", 13.9 },
{ "DIFF|SL:NR2R:0/3/53/t<=1e-06", 12.5 },
{ "DIFF|SL:NR2R:0/3/53/t<=2.1", 13.7 },
{ "DIFF|SL:NR2R:0/3/53/t<=2.6", 13.9 },
{ "DIFF|SL:NR2R:0/3/53/t<=2.95", 13.8 },
{ "DIFF|SL:NR2R:0/3/53/t<=3.1", 13.8 },
{ "DIFF|SL:NR2R:0/3/53/t<=3.141", 13.9 },
{ "DIFF|SL:NR2R:0/3/53/t>3.141", 15 },
{ "DIFF|SL:NR2R:0/3/53/u<=0.1", 12 },
{ "DIFF|SL:NR2R:0/3/53/u<=0.5", 12.1 },
{ "DIFF|SL:NR2R:0/3/53/u<=1", 12.4 },
{ "DIFF|SL:NR2R:0/3/53/u<=1.3", 12.6 },
{ "DIFF|SL:NR2R:0/3/53/u<=1.5", 12.5 },
{ "DIFF|SL:NR2R:0/3/53/u<=1.64", 13 },
{ "DIFF|SL:NR2R:0/3/53/u<=1.8", 12.9 },
{ "DIFF|SL:NR2R:0/3/53/u<=1e-06", 12 },
{ "DIFF|SL:NR2R:0/3/53/u<=2.1", 13 },
{ "DIFF|SL:NR2R:0/3/53/u<=2.6", 13.2 },
{ "DIFF|SL:NR2R:0/3/53/u<=2.95", 13.9 },
{ "DIFF|SL:NR2R:0/3/53/u<=3.1", 13.1 },
{ "DIFF|SL:NR2R:0/3/53/v<=0.1", 12 },
{ "DIFF|SL:NR2R:0/3/53/v<=0.5", 12.1 },
{ "DIFF|SL:NR2R:0/3/53/v<=1", 12.2 },
{ "DIFF|SL:NR2R:0/3/53/v<=1.3", 12.7 },
{ "DIFF|SL:NR2R:0/3/53/v<=1.5", 12.6 },
{ "DIFF|SL:NR2R:0/3/53/v<=1.64", 12.7 },
{ "DIFF|SL:NR2R:0/3/53/v<=1.8", 12.3 },
{ "DIFF|SL:NR2R:0/3/53/v<=1e-06", 12 },
{ "DIFF|SL:NR2R:0/3/53/v<=2.1", 12.5 },
{ "DIFF|SL:NR2R:0/3/53/v<=2.6", 12.4 },
{ "DIFF|SL:NR2R:0/3/53/v<=2.95", 12.6 },
{ "DIFF|SL:NR2R:0/3/53/v<=3.1", 12.6 },
{ "DIFF|SL:NR2R:0/3/53/v<=3.141", 12.4 },
{ "DIFF|SL:NR2R:0/3/53/v>3.141", 12.6 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=0.1", 12.9 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=0.5", 7.41 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1", 7.38 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1.3", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1.5", 12.6 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1.64", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1.8", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=1e-06", 7.36 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=2.1", 12.4 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=2.6", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=2.95", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=3.1", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t<=3.141", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/t>3.141", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=0.1", 12.9 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=0.5", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1.5", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1.64", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1.8", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=1e-06", 12.7 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=2.1", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=2.6", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=2.95", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/u<=3.1", 12.5 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=0.1", 12.8 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=0.5", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1.3", 12.1 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1.5", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1.64", 12.4 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1.8", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=1e-06", 12.8 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=2.1", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=2.6", 12.1 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=2.95", 12.2 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=3.1", 12.3 },
{ "DIFF|SL:NR2R:0/30-199/53/v<=3.141", 12.4 },
{ "DIFF|SL:NR2R:0/30-199/53/v>3.141", 12.4 },
{ "DIFF|SL:NR2R:0/4/53/t<=0.1", 12.9 },
{ "DIFF|SL:NR2R:0/4/53/t<=0.5", 12.8 },
{ "DIFF|SL:NR2R:0/4/53/t<=1", 12.6 },
{ "DIFF|SL:NR2R:0/4/53/t<=1.3", 13.1 },
{ "DIFF|SL:NR2R:0/4/53/t<=1.5", 12.9 },
{ "DIFF|SL:NR2R:0/4/53/t<=1.64", 13.2 },
{ "DIFF|SL:NR2R:0/4/53/t<=1.8", 13 },
{ "DIFF|SL:NR2R:0/4/53/t<=1e-06", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/t<=2.1", 13.5 },
{ "DIFF|SL:NR2R:0/4/53/t<=2.6", 17.8 },
{ "DIFF|SL:NR2R:0/4/53/t<=2.95", 39.5 },
{ "DIFF|SL:NR2R:0/4/53/t<=3.1", 57.7 },
{ "DIFF|SL:NR2R:0/4/53/t<=3.141", 66.8 },
{ "DIFF|SL:NR2R:0/4/53/t>3.141", 65.1 },
{ "DIFF|SL:NR2R:0/4/53/u<=0.1", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/u<=0.5", 12.3 },
{ "DIFF|SL:NR2R:0/4/53/u<=1", 12.1 },
{ "DIFF|SL:NR2R:0/4/53/u<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/4/53/u<=1.5", 12.4 },
{ "DIFF|SL:NR2R:0/4/53/u<=1.64", 12.3 },
{ "DIFF|SL:NR2R:0/4/53/u<=1.8", 12.3 },
{ "DIFF|SL:NR2R:0/4/53/u<=1e-06", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/u<=2.1", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/u<=2.6", 13.7 },
{ "DIFF|SL:NR2R:0/4/53/u<=2.95", 36.2 },
{ "DIFF|SL:NR2R:0/4/53/u<=3.1", 53 },
{ "DIFF|SL:NR2R:0/4/53/v<=0.1", 12.8 },
{ "DIFF|SL:NR2R:0/4/53/v<=0.5", 12.2 },
{ "DIFF|SL:NR2R:0/4/53/v<=1", 12.1 },
{ "DIFF|SL:NR2R:0/4/53/v<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/4/53/v<=1.5", 12.2 },
{ "DIFF|SL:NR2R:0/4/53/v<=1.64", 12.3 },
{ "DIFF|SL:NR2R:0/4/53/v<=1.8", 12.1 },
{ "DIFF|SL:NR2R:0/4/53/v<=1e-06", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/v<=2.1", 12.5 },
{ "DIFF|SL:NR2R:0/4/53/v<=2.6", 12.7 },
{ "DIFF|SL:NR2R:0/4/53/v<=2.95", 21.9 },
{ "DIFF|SL:NR2R:0/4/53/v<=3.1", 41.3 },
{ "DIFF|SL:NR2R:0/4/53/v<=3.141", 63.2 },
{ "DIFF|SL:NR2R:0/4/53/v>3.141", 67.5 },
{ "DIFF|SL:NR2R:0/5/53/t<=0.1", 12.6 },
{ "DIFF|SL:NR2R:0/5/53/t<=0.5", 12.7 },
{ "DIFF|SL:NR2R:0/5/53/t<=1", 12.9 },
{ "DIFF|SL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "DIFF|SL:NR2R:0/5/53/t<=1.5", 12.9 },
{ "DIFF|SL:NR2R:0/5/53/t<=1.64", 13.3 },
{ "DIFF|SL:NR2R:0/5/53/t<=1.8", 13.3 },
{ "DIFF|SL:NR2R:0/5/53/t<=1e-06", 12.4 },
{ "DIFF|SL:NR2R:0/5/53/t<=2.1", 13.2 },
{ "DIFF|SL:NR2R:0/5/53/t<=2.6", 13.6 },
{ "DIFF|SL:NR2R:0/5/53/t<=2.95", 15.5 },
{ "DIFF|SL:NR2R:0/5/53/t<=3.1", 16.5 },
{ "DIFF|SL:NR2R:0/5/53/t<=3.141", 17.4 },
{ "DIFF|SL:NR2R:0/5/53/t>3.141", 16.9 },
{ "DIFF|SL:NR2R:0/5/53/u<=0.1", 12 },
{ "DIFF|SL:NR2R:0/5/53/u<=0.5", 12.1 },
{ "DIFF|SL:NR2R:0/5/53/u<=1", 12.2 },
{ "DIFF|SL:NR2R:0/5/53/u<=1.3", 12.4 },
{ "DIFF|SL:NR2R:0/5/53/u<=1.5", 13 },
{ "DIFF|SL:NR2R:0/5/53/u<=1.64", 12.8 },
{ "DIFF|SL:NR2R:0/5/53/u<=1.8", 12.7 },
{ "DIFF|SL:NR2R:0/5/53/u<=1e-06", 12 },
{ "DIFF|SL:NR2R:0/5/53/u<=2.1", 12.8 },
{ "DIFF|SL:NR2R:0/5/53/u<=2.6", 13.7 },
{ "DIFF|SL:NR2R:0/5/53/u<=2.95", 14.6 },
{ "DIFF|SL:NR2R:0/5/53/u<=3.1", 14 },
{ "DIFF|SL:NR2R:0/5/53/v<=0.1", 12 },
{ "DIFF|SL:NR2R:0/5/53/v<=0.5", 12.1 },
{ "DIFF|SL:NR2R:0/5/53/v<=1", 12.1 },
{ "DIFF|SL:NR2R:0/5/53/v<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/5/53/v<=1.5", 12.6 },
{ "DIFF|SL:NR2R:0/5/53/v<=1.64", 12.8 },
{ "DIFF|SL:NR2R:0/5/53/v<=1.8", 12.4 },
{ "DIFF|SL:NR2R:0/5/53/v<=1e-06", 12 },
{ "DIFF|SL:NR2R:0/5/53/v<=2.1", 12.4 },
{ "DIFF|SL:NR2R:0/5/53/v<=2.6", 12.5 },
{ "DIFF|SL:NR2R:0/5/53/v<=2.95", 12.8 },
{ "DIFF|SL:NR2R:0/5/53/v<=3.1", 12.7 },
{ "DIFF|SL:NR2R:0/5/53/v<=3.141", 12.5 },
{ "DIFF|SL:NR2R:0/5/53/v>3.141", 13.2 },
{ "DIFF|SL:NR2R:0/6/53/t<=0.1", 13 },
{ "DIFF|SL:NR2R:0/6/53/t<=0.5", 12.9 },
{ "DIFF|SL:NR2R:0/6/53/t<=1", 12.8 },
{ "DIFF|SL:NR2R:0/6/53/t<=1.3", 12.6 },
{ "DIFF|SL:NR2R:0/6/53/t<=1.5", 12.6 },
{ "DIFF|SL:NR2R:0/6/53/t<=1.64", 12.9 },
{ "DIFF|SL:NR2R:0/6/53/t<=1.8", 13 },
{ "DIFF|SL:NR2R:0/6/53/t<=1e-06", 12.9 },
{ "DIFF|SL:NR2R:0/6/53/t<=2.1", 12.8 },
{ "DIFF|SL:NR2R:0/6/53/t<=2.6", 13.2 },
{ "DIFF|SL:NR2R:0/6/53/t<=2.95", 14.4 },
{ "DIFF|SL:NR2R:0/6/53/t<=3.1", 24.1 },
{ "DIFF|SL:NR2R:0/6/53/t<=3.141", 28.8 },
{ "DIFF|SL:NR2R:0/6/53/t>3.141", 33 },
{ "DIFF|SL:NR2R:0/6/53/u<=0.1", 12.9 },
{ "DIFF|SL:NR2R:0/6/53/u<=0.5", 12.5 },
{ "DIFF|SL:NR2R:0/6/53/u<=1", 12.1 },
{ "DIFF|SL:NR2R:0/6/53/u<=1.3", 12.2 },
{ "DIFF|SL:NR2R:0/6/53/u<=1.5", 12.2 },
{ "DIFF|SL:NR2R:0/6/53/u<=1.64", 12.4 },
{ "DIFF|SL:NR2R:0/6/53/u<=1.8", 12.4 },
{ "DIFF|SL:NR2R:0/6/53/u<=1e-06", 12.7 },
{ "DIFF|SL:NR2R:0/6/53/u<=2.1", 12.7 },
{ "DIFF|SL:NR2R:0/6/53/u<=2.6", 12.8 },
{ "DIFF|SL:NR2R:0/6/53/u<=2.95", 13.3 },
{ "DIFF|SL:NR2R:0/6/53/u<=3.1", 19.5 },
{ "DIFF|SL:NR2R:0/6/53/v<=0.1", 12.9 },
{ "DIFF|SL:NR2R:0/6/53/v<=0.5", 12.3 },
{ "DIFF|SL:NR2R:0/6/53/v<=1", 12.1 },
{ "DIFF|SL:NR2R:0/6/53/v<=1.3", 12.1 },
{ "DIFF|SL:NR2R:0/6/53/v<=1.5", 12.1 },
{ "DIFF|SL:NR2R:0/6/53/v<=1.64", 12.2 },
{ "DIFF|SL:NR2R:0/6/53/v<=1.8", 12.2 },
{ "DIFF|SL:NR2R:0/6/53/v<=1e-06", 12.6 },
{ "DIFF|SL:NR2R:0/6/53/v<=2.1", 12.3 },
{ "DIFF|SL:NR2R:0/6/53/v<=2.6", 12.3 },
{ "DIFF|SL:NR2R:0/6/53/v<=2.95", 12.5 },
{ "DIFF|SL:NR2R:0/6/53/v<=3.1", 17.4 },
{ "DIFF|SL:NR2R:0/6/53/v<=3.141", 27.5 },
{ "DIFF|SL:NR2R:0/6/53/v>3.141", 33 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=0.1", 6.99 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=0.5", 6.91 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1", 6.88 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1.3", 6.92 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1.5", 13.2 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1.64", 13.7 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1.8", 13.4 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=1e-06", 6.94 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=2.1", 7.25 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=2.6", 7.54 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=2.95", 8.38 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=3.1", 15.8 },
{ "DIFF|SL:NR2R:0/7-29/53/t<=3.141", 15.3 },
{ "DIFF|SL:NR2R:0/7-29/53/t>3.141", 17.5 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=0.1", 13 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=0.5", 12.6 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1", 6.24 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1.3", 12.5 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1.5", 12.9 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1.64", 13.6 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1.8", 13.1 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=1e-06", 13 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=2.1", 12.8 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=2.6", 7.42 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=2.95", 14.2 },
{ "DIFF|SL:NR2R:0/7-29/53/u<=3.1", 15 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=0.1", 13 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=0.5", 6.33 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1", 6.21 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1.3", 6.27 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1.5", 12.5 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1.64", 7.65 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1.8", 12.7 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=1e-06", 12.9 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=2.1", 6.5 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=2.6", 6.59 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=2.95", 13.2 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=3.1", 13.9 },
{ "DIFF|SL:NR2R:0/7-29/53/v<=3.141", 16.3 },
{ "DIFF|SL:NR2R:0/7-29/53/v>3.141", 13.1 },
{ "DISK|LI:C2C:2//24/a<=0.25", 8.44 },
{ "DISK|LI:C2C:2//24/a<=0.75", 8.16 },
{ "DISK|LI:C2C:2//24/a<=0.75n", 11.8 },
{ "DISK|LI:C2C:2//24/a<=1", 8.33 },
{ "DISK|LI:C2C:2//24/a<=1h", 9.02 },
{ "DISK|LI:C2C:2//24/a<=1n", 8.61 },
{ "DISK|LI:C2C:2//24/r<=0.25", 10.3 },
{ "DISK|LI:C2C:2//24/r<=0.75", 9.73 },
{ "DISK|LI:C2C:2//24/r<=0.75n", 13.6 },
{ "DISK|LI:C2C:2//24/r<=1", 9.57 },
{ "DISK|LI:C2C:2//24/r<=1n", 12 },
{ "DISK|LI:C2C:2//53/a<=0.25", 9.32 },
{ "DISK|LI:C2C:2//53/a<=0.75", 8.42 },
{ "DISK|LI:C2C:2//53/a<=0.75n", 9.55 },
{ "DISK|LI:C2C:2//53/a<=1", 8.38 },
{ "DISK|LI:C2C:2//53/a<=1h", 8.44 },
{ "DISK|LI:C2C:2//53/a<=1n", 7.78 },
{ "DISK|LI:C2C:2//53/r<=0.25", 8.71 },
{ "DISK|LI:C2C:2//53/r<=0.75", 18.1 },
{ "DISK|LI:C2C:2//53/r<=0.75n", 34.9 },
{ "DISK|LI:C2C:2//53/r<=1", 27.9 },
{ "DISK|LI:C2C:2//53/r<=1n", 7.27 },
{ "DISK|LI:C2C:2//64/a<=0.25", 8.75 },
{ "DISK|LI:C2C:2//64/a<=0.75", 8.1 },
{ "DISK|LI:C2C:2//64/a<=0.75n", 10.3 },
{ "DISK|LI:C2C:2//64/a<=1", 9.13 },
{ "DISK|LI:C2C:2//64/a<=1h", 8.47 },
{ "DISK|LI:C2C:2//64/a<=1n", 7.26 },
{ "DISK|LI:C2C:2//64/r<=0.25", 12.8 },
{ "DISK|LI:C2C:2//64/r<=0.75", 8.63 },
{ "DISK|LI:C2C:2//64/r<=0.75n", 15 },
{ "DISK|LI:C2C:2//64/r<=1", 11.1 },
{ "DISK|LI:C2C:2//64/r<=1n", 12 },
{ "DISK|LI:C2C:3//53/a<=0.25", 8.14 },
{ "DISK|LI:C2C:3//53/a<=0.75", 8.19 },
{ "DISK|LI:C2C:3//53/a<=0.75n", 13.7 },
{ "DISK|LI:C2C:3//53/a<=1", 24.1 },
{ "DISK|LI:C2C:3//53/a<=1h", 39.6 },
{ "DISK|LI:C2C:3//53/a<=1n", 20.1 },
{ "DISK|LI:C2C:3//53/r<=0.25", 8.81 },
{ "DISK|LI:C2C:3//53/r<=0.75", 12.3 },
{ "DISK|LI:C2C:3//53/r<=0.75n", 39.6 },
{ "DISK|LI:C2C:3//53/r<=1", 8.33 },
{ "DISK|LI:C2C:3//53/r<=1n", 12.6 },
{ "DISK|LI:C2C:3//64/a<=0.25", 9.19 },
{ "DISK|LI:C2C:3//64/a<=0.75", 9.25 },
{ "DISK|LI:C2C:3//64/a<=0.75n", 16.7 },
{ "DISK|LI:C2C:3//64/a<=1", 9.06 },
{ "DISK|LI:C2C:3//64/a<=1h", 7.22 },
{ "DISK|LI:C2C:3//64/a<=1n", 8.36 },
{ "DISK|LI:C2C:3//64/r<=0.25", 12.8 },
{ "DISK|LI:C2C:3//64/r<=0.75", 8.62 },
{ "DISK|LI:C2C:3//64/r<=0.75n", 13.1 },
{ "DISK|LI:C2C:3//64/r<=1", 8.12 },
{ "DISK|LI:C2C:3//64/r<=1n", 12.3 },
{ "DISK|LI:C2C:4//53/a<=0.25", 8.06 },
{ "DISK|LI:C2C:4//53/a<=0.75", 8.98 },
{ "DISK|LI:C2C:4//53/a<=0.75n", 19.7 },
{ "DISK|LI:C2C:4//53/a<=1", 16.4 },
{ "DISK|LI:C2C:4//53/a<=1h", 26.4 },
{ "DISK|LI:C2C:4//53/a<=1n", 15.2 },
{ "DISK|LI:C2C:4//53/r<=0.25", 8.93 },
{ "DISK|LI:C2C:4//53/r<=0.75", 11.3 },
{ "DISK|LI:C2C:4//53/r<=0.75n", 289 },
{ "DISK|LI:C2C:4//53/r<=1", 8.51 },
{ "DISK|LI:C2C:4//53/r<=1n", 365 },
{ "DISK|LI:C2C:4//64/a<=0.25", 9.12 },
{ "DISK|LI:C2C:4//64/a<=0.75", 8.34 },
{ "DISK|LI:C2C:4//64/a<=0.75n", 18.8 },
{ "DISK|LI:C2C:4//64/a<=1", 9.03 },
{ "DISK|LI:C2C:4//64/a<=1h", 7.29 },
{ "DISK|LI:C2C:4//64/a<=1n", 7.81 },
{ "DISK|LI:C2C:4//64/r<=0.25", 12.5 },
{ "DISK|LI:C2C:4//64/r<=0.75", 8.71 },
{ "DISK|LI:C2C:4//64/r<=0.75n", 17.1 },
{ "DISK|LI:C2C:4//64/r<=1", 7.85 },
{ "DISK|LI:C2C:4//64/r<=1n", 12.3 },
{ "DISK|LI:C2C:5//53/a<=0.25", 8.39 },
{ "DISK|LI:C2C:5//53/a<=0.75", 8.27 },
{ "DISK|LI:C2C:5//53/a<=0.75n", 10.3 },
{ "DISK|LI:C2C:5//53/a<=1", 8.95 },
{ "DISK|LI:C2C:5//53/a<=1h", 7.82 },
{ "DISK|LI:C2C:5//53/a<=1n", 7.15 },
{ "DISK|LI:C2C:5//53/r<=0.25", 8.23 },
{ "DISK|LI:C2C:5//53/r<=0.75", 8.23 },
{ "DISK|LI:C2C:5//53/r<=0.75n", 9 },
{ "DISK|LI:C2C:5//53/r<=1", 7.88 },
{ "DISK|LI:C2C:5//53/r<=1n", 12.7 },
{ "DISK|LI:C2C:5//64/a<=0.25", 8.96 },
{ "DISK|LI:C2C:5//64/a<=0.75", 8.59 },
{ "DISK|LI:C2C:5//64/a<=0.75n", 9.17 },
{ "DISK|LI:C2C:5//64/a<=1", 9.22 },
{ "DISK|LI:C2C:5//64/a<=1h", 7.4 },
{ "DISK|LI:C2C:5//64/a<=1n", 6.72 },
{ "DISK|LI:C2C:5//64/r<=0.25", 13.3 },
{ "DISK|LI:C2C:5//64/r<=0.75", 8.88 },
{ "DISK|LI:C2C:5//64/r<=0.75n", 8.07 },
{ "DISK|LI:C2C:5//64/r<=1", 7.82 },
{ "DISK|LI:C2C:5//64/r<=1n", 12.2 },
{ "DISK|LI:C2C:6//53/a<=0.25", 8.11 },
{ "DISK|LI:C2C:6//53/a<=0.75", 9.04 },
{ "DISK|LI:C2C:6//53/a<=0.75n", 14.9 },
{ "DISK|LI:C2C:6//53/a<=1", 9.16 },
{ "DISK|LI:C2C:6//53/a<=1h", 9.38 },
{ "DISK|LI:C2C:6//53/a<=1n", 7.16 },
{ "DISK|LI:C2C:6//53/r<=0.25", 8.31 },
{ "DISK|LI:C2C:6//53/r<=0.75", 8.55 },
{ "DISK|LI:C2C:6//53/r<=0.75n", 12.7 },
{ "DISK|LI:C2C:6//53/r<=1", 8.37 },
{ "DISK|LI:C2C:6//53/r<=1n", 7.77 },
{ "DISK|LI:C2C:6//64/a<=0.25", 8.82 },
{ "DISK|LI:C2C:6//64/a<=0.75", 8.6 },
{ "DISK|LI:C2C:6//64/a<=0.75n", 9.31 },
{ "DISK|LI:C2C:6//64/a<=1", 9.39 },
{ "DISK|LI:C2C:6//64/a<=1h", 7.45 },
{ "DISK|LI:C2C:6//64/a<=1n", 6.74 },
{ "DISK|LI:C2C:6//64/r<=0.25", 12.7 },
{ "DISK|LI:C2C:6//64/r<=0.75", 8.99 },
{ "DISK|LI:C2C:6//64/r<=0.75n", 8.38 },
{ "DISK|LI:C2C:6//64/r<=1", 7.92 },
{ "DISK|LI:C2C:6//64/r<=1n", 12.4 },
{ "DISK|LI:NC2C:0/2/53/a<=0.25", 12.2 },
{ "DISK|LI:NC2C:0/2/53/a<=0.75", 8.42 },
{ "DISK|LI:NC2C:0/2/53/a<=0.75n", 10.6 },
{ "DISK|LI:NC2C:0/2/53/a<=1", 8.38 },
{ "DISK|LI:NC2C:0/2/53/a<=1h", 14.4 },
{ "DISK|LI:NC2C:0/2/53/a<=1n", 7.78 },
{ "DISK|LI:NC2C:0/2/53/r<=0.25", 14.7 },
{ "DISK|LI:NC2C:0/2/53/r<=0.75", 24.1 },
{ "DISK|LI:NC2C:0/2/53/r<=0.75n", 46.6 },
{ "DISK|LI:NC2C:0/2/53/r<=1", 37.2 },
{ "DISK|LI:NC2C:0/2/53/r<=1n", 13.3 },
{ "DISK|LI:NC2C:0/200+/53/a<=0.25", 6 },
{ "DISK|LI:NC2C:0/200+/53/a<=0.75", 6 },
{ "DISK|LI:NC2C:0/200+/53/a<=0.75n", 6 },
{ "DISK|LI:NC2C:0/200+/53/a<=1", 28.7 },
{ "DISK|LI:NC2C:0/200+/53/a<=1h", 14.5 },
{ "DISK|LI:NC2C:0/200+/53/a<=1n", 9.27 },
{ "DISK|LI:NC2C:0/200+/53/r<=0.25", 6 },
{ "DISK|LI:NC2C:0/200+/53/r<=0.75", 6 },
{ "DISK|LI:NC2C:0/200+/53/r<=0.75n", 6 },
{ "DISK|LI:NC2C:0/200+/53/r<=1", 38 },
{ "DISK|LI:NC2C:0/200+/53/r<=1n", 14 },
{ "DISK|LI:NC2C:0/3/53/a<=0.25", 13.2 },
{ "DISK|LI:NC2C:0/3/53/a<=0.75", 9.56 },
{ "DISK|LI:NC2C:0/3/53/a<=0.75n", 16.5 },
{ "DISK|LI:NC2C:0/3/53/a<=1", 28.9 },
{ "DISK|LI:NC2C:0/3/53/a<=1h", 52.8 },
{ "DISK|LI:NC2C:0/3/53/a<=1n", 30.2 },
{ "DISK|LI:NC2C:0/3/53/r<=0.25", 14.8 },
{ "DISK|LI:NC2C:0/3/53/r<=0.75", 16.4 },
{ "DISK|LI:NC2C:0/3/53/r<=0.75n", 52.8 },
{ "DISK|LI:NC2C:0/3/53/r<=1", 14.3 },
{ "DISK|LI:NC2C:0/3/53/r<=1n", 13.9 },
{ "DISK|LI:NC2C:0/30-199/53/a<=0.25", 6.56 },
{ "DISK|LI:NC2C:0/30-199/53/a<=0.75", 6.97 },
{ "DISK|LI:NC2C:0/30-199/53/a<=0.75n", 6.97 },
{ "DISK|LI:NC2C:0/30-199/53/a<=1", 36.3 },
{ "DISK|LI:NC2C:0/30-199/53/a<=1h", 14.4 },
{ "DISK|LI:NC2C:0/30-199/53/a<=1n", 9.33 },
{ "DISK|LI:NC2C:0/30-199/53/r<=0.25", 12.1 },
{ "DISK|LI:NC2C:0/30-199/53/r<=0.75", 12.5 },
{ "DISK|LI:NC2C:0/30-199/53/r<=0.75n", 12.4 },
{ "DISK|LI:NC2C:0/30-199/53/r<=1", 39.4 },
{ "DISK|LI:NC2C:0/30-199/53/r<=1n", 13.4 },
{ "DISK|LI:NC2C:0/4/53/a<=0.25", 13.8 },
{ "DISK|LI:NC2C:0/4/53/a<=0.75", 11.9 },
{ "DISK|LI:NC2C:0/4/53/a<=0.75n", 23.6 },
{ "DISK|LI:NC2C:0/4/53/a<=1", 19.6 },
{ "DISK|LI:NC2C:0/4/53/a<=1h", 35.2 },
{ "DISK|LI:NC2C:0/4/53/a<=1n", 22.8 },
{ "DISK|LI:NC2C:0/4/53/r<=0.25", 14.9 },
{ "DISK|LI:NC2C:0/4/53/r<=0.75", 15.8 },
{ "DISK|LI:NC2C:0/4/53/r<=0.75n", 385 },
{ "DISK|LI:NC2C:0/4/53/r<=1", 14.5 },
{ "DISK|LI:NC2C:0/4/53/r<=1n", 486 },
{ "DISK|LI:NC2C:0/5/53/a<=0.25", 13.6 },
{ "DISK|LI:NC2C:0/5/53/a<=0.75", 9.82 },
{ "DISK|LI:NC2C:0/5/53/a<=0.75n", 12.4 },
{ "DISK|LI:NC2C:0/5/53/a<=1", 9.44 },
{ "DISK|LI:NC2C:0/5/53/a<=1h", 13.8 },
{ "DISK|LI:NC2C:0/5/53/a<=1n", 13.1 },
{ "DISK|LI:NC2C:0/5/53/r<=0.25", 14.2 },
{ "DISK|LI:NC2C:0/5/53/r<=0.75", 14.2 },
{ "DISK|LI:NC2C:0/5/53/r<=0.75n", 15 },
{ "DISK|LI:NC2C:0/5/53/r<=1", 13.9 },
{ "DISK|LI:NC2C:0/5/53/r<=1n", 13.2 },
{ "DISK|LI:NC2C:0/6/53/a<=0.25", 13.7 },
{ "DISK|LI:NC2C:0/6/53/a<=0.75", 12.1 },
{ "DISK|LI:NC2C:0/6/53/a<=0.75n", 17.9 },
{ "DISK|LI:NC2C:0/6/53/a<=1", 9.48 },
{ "DISK|LI:NC2C:0/6/53/a<=1h", 15.1 },
{ "DISK|LI:NC2C:0/6/53/a<=1n", 12.1 },
{ "DISK|LI:NC2C:0/6/53/r<=0.25", 14.3 },
{ "DISK|LI:NC2C:0/6/53/r<=0.75", 14.5 },
{ "DISK|LI:NC2C:0/6/53/r<=0.75n", 16.9 },
{ "DISK|LI:NC2C:0/6/53/r<=1", 14.4 },
{ "DISK|LI:NC2C:0/6/53/r<=1n", 13.8 },
{ "DISK|LI:NC2C:0/7-29/53/a<=0.25", 6.08 },
{ "DISK|LI:NC2C:0/7-29/53/a<=0.75", 6 },
{ "DISK|LI:NC2C:0/7-29/53/a<=0.75n", 6 },
{ "DISK|LI:NC2C:0/7-29/53/a<=1", 6 },
{ "DISK|LI:NC2C:0/7-29/53/a<=1h", 6 },
{ "DISK|LI:NC2C:0/7-29/53/a<=1n", 7.4 },
{ "DISK|LI:NC2C:0/7-29/53/r<=0.25", 6.05 },
{ "DISK|LI:NC2C:0/7-29/53/r<=0.75", 6 },
{ "DISK|LI:NC2C:0/7-29/53/r<=0.75n", 6 },
{ "DISK|LI:NC2C:0/7-29/53/r<=1", 6 },
{ "DISK|LI:NC2C:0/7-29/53/r<=1n", 12.8 },
{ "DUPREAL|LI:R2R:2//24", 7.66 },
{ "DUPREAL|LI:R2R:2//53", 16.6 },
{ "DUPREAL|LI:R2R:2//64", 8.6 },
{ "DUPREAL|LI:R2R:3//53", 13.5 },
{ "DUPREAL|LI:R2R:4//53", 129 },
{ "DUP|LI:C2C:2//24", 8.7 },
{ "DUP|LI:C2C:2//24/axis", 14.7 },
{ "DUP|LI:C2C:2//53", 8.05 },
{ "DUP|LI:C2C:2//53/axis", 21.1 },
{ "DUP|LI:C2C:2//64", 8.15 },
{ "DUP|LI:C2C:2//64/axis", 14.2 },
{ "DUP|LI:C2C:3//53", 17.7 },
{ "DUP|LI:C2C:3//53/axis", 21.2 },
{ "DUP|LI:C2C:3//64", 8.6 },
{ "DUP|LI:C2C:3//64/axis", 14.6 },
{ "DUP|LI:C2C:4//53", 14.3 },
{ "DUP|LI:C2C:4//53/axis", 172 },
{ "DUP|LI:C2C:4//64", 9.18 },
{ "DUP|LI:C2C:4//64/axis", 15.1 },
{ "DUP|LI:C2C:5//53", 11.6 },
{ "DUP|LI:C2C:5//53/axis", 13.9 },
{ "DUP|LI:C2C:5//64", 8.9 },
{ "DUP|LI:C2C:5//64/axis", 14.9 },
{ "DUP|LI:C2C:6//53", 12.7 },
{ "DUP|LI:C2C:6//53/axis", 15.2 },
{ "DUP|LI:C2C:6//64", 12.2 },
{ "DUP|LI:C2C:6//64/axis", 16.3 },
{ "DUP|LI:NC2C:0/-1/53", 8.47 },
{ "DUP|LI:NC2C:0/-1/53/axis", 14.5 },
{ "DUP|LI:NC2C:0/0/53", 7.25 },
{ "DUP|LI:NC2C:0/0/53/axis", 13.3 },
{ "DUP|LI:NC2C:0/1/53", 7.3 },
{ "DUP|LI:NC2C:0/1/53/axis", 12.5 },
{ "DUP|LI:NC2C:0/2/53", 8.05 },
{ "DUP|LI:NC2C:0/2/53/axis", 21.1 },
{ "DUP|LI:NC2C:0/200+/53", 14.6 },
{ "DUP|LI:NC2C:0/200+/53/axis", 19.5 },
{ "DUP|LI:NC2C:0/3/53", 21.2 },
{ "DUP|LI:NC2C:0/3/53/axis", 28.3 },
{ "DUP|LI:NC2C:0/30-199/53", 19.8 },
{ "DUP|LI:NC2C:0/30-199/53/axis", 26.4 },
{ "DUP|LI:NC2C:0/4/53", 17.1 },
{ "DUP|LI:NC2C:0/4/53/axis", 230 },
{ "DUP|LI:NC2C:0/5/53", 14.4 },
{ "DUP|LI:NC2C:0/5/53/axis", 18.6 },
{ "DUP|LI:NC2C:0/6/53", 15.2 },
{ "DUP|LI:NC2C:0/6/53/axis", 20.3 },
{ "DUP|LI:NC2C:0/7-29/53", 20.7 },
{ "DUP|LI:NC2C:0/7-29/53/axis", 27.6 },
{ "FIX|CL:R2R:1//53/t<=0.1", 6.96 },
{ "FIX|CL:R2R:1//53/t<=0.5", 6.96 },
{ "FIX|CL:R2R:1//53/t<=1", 6.9 },
{ "FIX|CL:R2R:1//53/t<=1.3", 7.1 },
{ "FIX|CL:R2R:1//53/t<=1.5", 6.93 },
{ "FIX|CL:R2R:1//53/t<=1.64", 6.86 },
{ "FIX|CL:R2R:1//53/t<=1.8", 6.81 },
{ "FIX|CL:R2R:1//53/t<=1e-06", 7 },
{ "FIX|CL:R2R:1//53/t<=2.1", 6.94 },
{ "FIX|CL:R2R:1//53/t<=2.6", 6.99 },
{ "FIX|CL:R2R:1//53/t<=2.95", 7.18 },
{ "FIX|CL:R2R:1//53/t<=3.1", 7.35 },
{ "FIX|CL:R2R:1//53/t<=3.141", 7.42 },
{ "FIX|CL:R2R:1//53/t>3.141", 7.4 },
{ "FIX|CL:R2R:1//53/u<=0.1", 6.36 },
{ "FIX|CL:R2R:1//53/u<=0.5", 6.13 },
{ "FIX|CL:R2R:1//53/u<=1", 6.17 },
{ "FIX|CL:R2R:1//53/u<=1.3", 6.31 },
{ "FIX|CL:R2R:1//53/u<=1.5", 6.38 },
{ "FIX|CL:R2R:1//53/u<=1.64", 6.4 },
{ "FIX|CL:R2R:1//53/u<=1.8", 6.42 },
{ "FIX|CL:R2R:1//53/u<=1e-06", 6.35 },
{ "FIX|CL:R2R:1//53/u<=2.1", 6.9 },
{ "FIX|CL:R2R:1//53/u<=2.6", 7.08 },
{ "FIX|CL:R2R:1//53/u<=2.95", 7.23 },
{ "FIX|CL:R2R:1//53/u<=3.1", 7.35 },
{ "FIX|CL:R2R:1//53/v<=0.1", 6.37 },
{ "FIX|CL:R2R:1//53/v<=0.5", 6.4 },
{ "FIX|CL:R2R:1//53/v<=1", 6.42 },
{ "FIX|CL:R2R:1//53/v<=1.3", 6.46 },
{ "FIX|CL:R2R:1//53/v<=1.5", 6.48 },
{ "FIX|CL:R2R:1//53/v<=1.64", 6.48 },
{ "FIX|CL:R2R:1//53/v<=1.8", 6.48 },
{ "FIX|CL:R2R:1//53/v<=1e-06", 6.35 },
{ "FIX|CL:R2R:1//53/v<=2.1", 6.57 },
{ "FIX|CL:R2R:1//53/v<=2.6", 6.67 },
{ "FIX|CL:R2R:1//53/v<=2.95", 6.9 },
{ "FIX|CL:R2R:1//53/v<=3.1", 7.2 },
{ "FIX|CL:R2R:1//53/v<=3.141", 7.42 },
{ "FIX|CL:R2R:1//53/v>3.141", 7.41 },
{ "FIX|CL:R2R:2//53/t<=0.1", 7.71 },
{ "FIX|CL:R2R:2//53/t<=0.5", 8 },
{ "FIX|CL:R2R:2//53/t<=1", 8.67 },
{ "FIX|CL:R2R:2//53/t<=1.3", 8.2 },
{ "FIX|CL:R2R:2//53/t<=1.5", 7.73 },
{ "FIX|CL:R2R:2//53/t<=1.64", 8.86 },
{ "FIX|CL:R2R:2//53/t<=1.8", 8.68 },
{ "FIX|CL:R2R:2//53/t<=1e-06", 7.47 },
{ "FIX|CL:R2R:2//53/t<=2.1", 8.46 },
{ "FIX|CL:R2R:2//53/t<=2.6", 8.09 },
{ "FIX|CL:R2R:2//53/t<=2.95", 7.07 },
{ "FIX|CL:R2R:2//53/t<=3.1", 6.96 },
{ "FIX|CL:R2R:2//53/t<=3.141", 6.95 },
{ "FIX|CL:R2R:2//53/t>3.141", 6.92 },
{ "FIX|CL:R2R:2//53/u<=0.1", 6.35 },
{ "FIX|CL:R2R:2//53/u<=0.5", 6.35 },
{ "FIX|CL:R2R:2//53/u<=1", 8.21 },
{ "FIX|CL:R2R:2//53/u<=1.3", 7.96 },
{ "FIX|CL:R2R:2//53/u<=1.5", 7.06 },
{ "FIX|CL:R2R:2//53/u<=1.64", 7.67 },
{ "FIX|CL:R2R:2//53/u<=1.8", 7.56 },
{ "FIX|CL:R2R:2//53/u<=1e-06", 6.35 },
{ "FIX|CL:R2R:2//53/u<=2.1", 7.74 },
{ "FIX|CL:R2R:2//53/u<=2.6", 7.64 },
{ "FIX|CL:R2R:2//53/u<=2.95", 7.25 },
{ "FIX|CL:R2R:2//53/u<=3.1", 7.03 },
{ "FIX|CL:R2R:2//53/v<=0.1", 6.69 },
{ "FIX|CL:R2R:2//53/v<=0.5", 6.65 },
{ "FIX|CL:R2R:2//53/v<=1", 7.95 },
{ "FIX|CL:R2R:2//53/v<=1.3", 7.98 },
{ "FIX|CL:R2R:2//53/v<=1.5", 6.95 },
{ "FIX|CL:R2R:2//53/v<=1.64", 7.27 },
{ "FIX|CL:R2R:2//53/v<=1.8", 7.09 },
{ "FIX|CL:R2R:2//53/v<=1e-06", 6.37 },
{ "FIX|CL:R2R:2//53/v<=2.1", 7.06 },
{ "FIX|CL:R2R:2//53/v<=2.6", 6.88 },
{ "FIX|CL:R2R:2//53/v<=2.95", 6.57 },
{ "FIX|CL:R2R:2//53/v<=3.1", 6.42 },
{ "FIX|CL:R2R:2//53/v<=3.141", 6.37 },
{ "FIX|CL:R2R:2//53/v>3.141", 6.35 },
{ "FIX|CL:R2R:3//53/t<=0.1", 7.21 },
{ "FIX|CL:R2R:3//53/t<=0.5", 7.5 },
{ "FIX|CL:R2R:3//53/t<=1", 8.21 },
{ "FIX|CL:R2R:3//53/t<=1.3", 10.6 },
{ "FIX|CL:R2R:3//53/t<=1.5", 13.9 },
{ "FIX|CL:R2R:3//53/t<=1.64", 14.5 },
{ "FIX|CL:R2R:3//53/t<=1.8", 7.39 },
{ "FIX|CL:R2R:3//53/t<=1e-06", 7.2 },
{ "FIX|CL:R2R:3//53/t<=2.1", 7.73 },
{ "FIX|CL:R2R:3//53/t<=2.6", 7.95 },
{ "FIX|CL:R2R:3//53/t<=2.95", 10.1 },
{ "FIX|CL:R2R:3//53/t<=3.1", 14.2 },
{ "FIX|CL:R2R:3//53/t<=3.141", 14.3 },
{ "FIX|CL:R2R:3//53/t>3.141", 14.4 },
{ "FIX|CL:R2R:3//53/u<=0.1", 7.2 },
{ "FIX|CL:R2R:3//53/u<=0.5", 6.45 },
{ "FIX|CL:R2R:3//53/u<=1", 6.47 },
{ "FIX|CL:R2R:3//53/u<=1.3", 6.99 },
{ "FIX|CL:R2R:3//53/u<=1.5", 7.31 },
{ "FIX|CL:R2R:3//53/u<=1.64", 7.56 },
{ "FIX|CL:R2R:3//53/u<=1.8", 6.51 },
{ "FIX|CL:R2R:3//53/u<=1e-06", 7.2 },
{ "FIX|CL:R2R:3//53/u<=2.1", 7.29 },
{ "FIX|CL:R2R:3//53/u<=2.6", 7.59 },
{ "FIX|CL:R2R:3//53/u<=2.95", 9.19 },
{ "FIX|CL:R2R:3//53/u<=3.1", 11.3 },
{ "FIX|CL:R2R:3//53/v<=0.1", 7.2 },
{ "FIX|CL:R2R:3//53/v<=0.5", 6.66 },
{ "FIX|CL:R2R:3//53/v<=1", 6.65 },
{ "FIX|CL:R2R:3//53/v<=1.3", 6.92 },
{ "FIX|CL:R2R:3//53/v<=1.5", 7.04 },
{ "FIX|CL:R2R:3//53/v<=1.64", 7.19 },
{ "FIX|CL:R2R:3//53/v<=1.8", 6.58 },
{ "FIX|CL:R2R:3//53/v<=1e-06", 7.2 },
{ "FIX|CL:R2R:3//53/v<=2.1", 6.74 },
{ "FIX|CL:R2R:3//53/v<=2.6", 6.83 },
{ "FIX|CL:R2R:3//53/v<=2.95", 7.97 },
{ "FIX|CL:R2R:3//53/v<=3.1", 10.1 },
{ "FIX|CL:R2R:3//53/v<=3.141", 15 },
{ "FIX|CL:R2R:3//53/v>3.141", 15.4 },
{ "FIX|CL:R2R:4//53/t<=0.1", 7.41 },
{ "FIX|CL:R2R:4//53/t<=0.5", 7.56 },
{ "FIX|CL:R2R:4//53/t<=1", 7.94 },
{ "FIX|CL:R2R:4//53/t<=1.3", 10.6 },
{ "FIX|CL:R2R:4//53/t<=1.5", 17.6 },
{ "FIX|CL:R2R:4//53/t<=1.64", 17.6 },
{ "FIX|CL:R2R:4//53/t<=1.8", 11.3 },
{ "FIX|CL:R2R:4//53/t<=1e-06", 7.07 },
{ "FIX|CL:R2R:4//53/t<=2.1", 8.84 },
{ "FIX|CL:R2R:4//53/t<=2.6", 7.97 },
{ "FIX|CL:R2R:4//53/t<=2.95", 7.09 },
{ "FIX|CL:R2R:4//53/t<=3.1", 6.97 },
{ "FIX|CL:R2R:4//53/t<=3.141", 6.94 },
{ "FIX|CL:R2R:4//53/t>3.141", 6.92 },
{ "FIX|CL:R2R:4//53/u<=0.1", 6.35 },
{ "FIX|CL:R2R:4//53/u<=0.5", 6.24 },
{ "FIX|CL:R2R:4//53/u<=1", 6.9 },
{ "FIX|CL:R2R:4//53/u<=1.3", 8.31 },
{ "FIX|CL:R2R:4//53/u<=1.5", 16.3 },
{ "FIX|CL:R2R:4//53/u<=1.64", 13.5 },
{ "FIX|CL:R2R:4//53/u<=1.8", 8.47 },
{ "FIX|CL:R2R:4//53/u<=1e-06", 6.35 },
{ "FIX|CL:R2R:4//53/u<=2.1", 7.61 },
{ "FIX|CL:R2R:4//53/u<=2.6", 7.61 },
{ "FIX|CL:R2R:4//53/u<=2.95", 7.29 },
{ "FIX|CL:R2R:4//53/u<=3.1", 7.07 },
{ "FIX|CL:R2R:4//53/v<=0.1", 6.41 },
{ "FIX|CL:R2R:4//53/v<=0.5", 6.41 },
{ "FIX|CL:R2R:4//53/v<=1", 6.6 },
{ "FIX|CL:R2R:4//53/v<=1.3", 7.56 },
{ "FIX|CL:R2R:4//53/v<=1.5", 16.9 },
{ "FIX|CL:R2R:4//53/v<=1.64", 12.3 },
{ "FIX|CL:R2R:4//53/v<=1.8", 7.58 },
{ "FIX|CL:R2R:4//53/v<=1e-06", 6.35 },
{ "FIX|CL:R2R:4//53/v<=2.1", 7.08 },
{ "FIX|CL:R2R:4//53/v<=2.6", 6.85 },
{ "FIX|CL:R2R:4//53/v<=2.95", 6.57 },
{ "FIX|CL:R2R:4//53/v<=3.1", 6.43 },
{ "FIX|CL:R2R:4//53/v<=3.141", 6.39 },
{ "FIX|CL:R2R:4//53/v>3.141", 6.35 },
{ "FIX|CL:R2R:5//53/t<=0.1", 14.2 },
{ "FIX|CL:R2R:5//53/t<=0.5", 13.9 },
{ "FIX|CL:R2R:5//53/t<=1", 8.59 },
{ "FIX|CL:R2R:5//53/t<=1.3", 7.98 },
{ "FIX|CL:R2R:5//53/t<=1.5", 7.77 },
{ "FIX|CL:R2R:5//53/t<=1.64", 7.87 },
{ "FIX|CL:R2R:5//53/t<=1.8", 7.46 },
{ "FIX|CL:R2R:5//53/t<=1e-06", 8.9 },
{ "FIX|CL:R2R:5//53/t<=2.1", 7.64 },
{ "FIX|CL:R2R:5//53/t<=2.6", 7.79 },
{ "FIX|CL:R2R:5//53/t<=2.95", 9 },
{ "FIX|CL:R2R:5//53/t<=3.1", 12.5 },
{ "FIX|CL:R2R:5//53/t<=3.141", 13.2 },
{ "FIX|CL:R2R:5//53/t>3.141", 13.3 },
{ "FIX|CL:R2R:5//53/u<=0.1", 13 },
{ "FIX|CL:R2R:5//53/u<=0.5", 8.65 },
{ "FIX|CL:R2R:5//53/u<=1", 6.77 },
{ "FIX|CL:R2R:5//53/u<=1.3", 6.48 },
{ "FIX|CL:R2R:5//53/u<=1.5", 6.52 },
{ "FIX|CL:R2R:5//53/u<=1.64", 6.59 },
{ "FIX|CL:R2R:5//53/u<=1.8", 6.51 },
{ "FIX|CL:R2R:5//53/u<=1e-06", 8.9 },
{ "FIX|CL:R2R:5//53/u<=2.1", 7.29 },
{ "FIX|CL:R2R:5//53/u<=2.6", 7.74 },
{ "FIX|CL:R2R:5//53/u<=2.95", 8.84 },
{ "FIX|CL:R2R:5//53/u<=3.1", 10.9 },
{ "FIX|CL:R2R:5//53/v<=0.1", 13.7 },
{ "FIX|CL:R2R:5//53/v<=0.5", 8.22 },
{ "FIX|CL:R2R:5//53/v<=1", 6.64 },
{ "FIX|CL:R2R:5//53/v<=1.3", 6.57 },
{ "FIX|CL:R2R:5//53/v<=1.5", 6.6 },
{ "FIX|CL:R2R:5//53/v<=1.64", 6.65 },
{ "FIX|CL:R2R:5//53/v<=1.8", 6.58 },
{ "FIX|CL:R2R:5//53/v<=1e-06", 8.9 },
{ "FIX|CL:R2R:5//53/v<=2.1", 6.74 },
{ "FIX|CL:R2R:5//53/v<=2.6", 6.84 },
{ "FIX|CL:R2R:5//53/v<=2.95", 7.66 },
{ "FIX|CL:R2R:5//53/v<=3.1", 8.74 },
{ "FIX|CL:R2R:5//53/v<=3.141", 15.1 },
{ "FIX|CL:R2R:5//53/v>3.141", 15 },
{ "FIX|CL:R2R:6//53/t<=0.1", 8.53 },
{ "FIX|CL:R2R:6//53/t<=0.5", 9.54 },
{ "FIX|CL:R2R:6//53/t<=1", 8.77 },
{ "FIX|CL:R2R:6//53/t<=1.3", 9.07 },
{ "FIX|CL:R2R:6//53/t<=1.5", 12.9 },
{ "FIX|CL:R2R:6//53/t<=1.64", 14.2 },
{ "FIX|CL:R2R:6//53/t<=1.8", 10.4 },
{ "FIX|CL:R2R:6//53/t<=1e-06", 7.74 },
{ "FIX|CL:R2R:6//53/t<=2.1", 8.5 },
{ "FIX|CL:R2R:6//53/t<=2.6", 8.06 },
{ "FIX|CL:R2R:6//53/t<=2.95", 7.13 },
{ "FIX|CL:R2R:6//53/t<=3.1", 6.96 },
{ "FIX|CL:R2R:6//53/t<=3.141", 6.96 },
{ "FIX|CL:R2R:6//53/t>3.141", 6.92 },
{ "FIX|CL:R2R:6//53/u<=0.1", 6.36 },
{ "FIX|CL:R2R:6//53/u<=0.5", 6.4 },
{ "FIX|CL:R2R:6//53/u<=1", 6.93 },
{ "FIX|CL:R2R:6//53/u<=1.3", 7.67 },
{ "FIX|CL:R2R:6//53/u<=1.5", 10.1 },
{ "FIX|CL:R2R:6//53/u<=1.64", 13.2 },
{ "FIX|CL:R2R:6//53/u<=1.8", 8.65 },
{ "FIX|CL:R2R:6//53/u<=1e-06", 6.35 },
{ "FIX|CL:R2R:6//53/u<=2.1", 7.8 },
{ "FIX|CL:R2R:6//53/u<=2.6", 7.66 },
{ "FIX|CL:R2R:6//53/u<=2.95", 7.33 },
{ "FIX|CL:R2R:6//53/u<=3.1", 7.08 },
{ "FIX|CL:R2R:6//53/v<=0.1", 6.39 },
{ "FIX|CL:R2R:6//53/v<=0.5", 6.49 },
{ "FIX|CL:R2R:6//53/v<=1", 6.66 },
{ "FIX|CL:R2R:6//53/v<=1.3", 7.39 },
{ "FIX|CL:R2R:6//53/v<=1.5", 8.93 },
{ "FIX|CL:R2R:6//53/v<=1.64", 12 },
{ "FIX|CL:R2R:6//53/v<=1.8", 8.01 },
{ "FIX|CL:R2R:6//53/v<=1e-06", 6.35 },
{ "FIX|CL:R2R:6//53/v<=2.1", 7.04 },
{ "FIX|CL:R2R:6//53/v<=2.6", 6.94 },
{ "FIX|CL:R2R:6//53/v<=2.95", 6.59 },
{ "FIX|CL:R2R:6//53/v<=3.1", 6.43 },
{ "FIX|CL:R2R:6//53/v<=3.141", 6.37 },
{ "FIX|CL:R2R:6//53/v>3.141", 6.35 },
{ "FIX|LI:C2C:-1//53/m<=1a<=0.3", 8.01 },
{ "FIX|LI:C2C:-1//53/m<=1a<=0.6", 8.18 },
{ "FIX|LI:C2C:-1//53/m<=1a<=1", 8.45 },
{ "FIX|LI:C2C:-1//53/m<=1a<=1.7", 9.1 },
{ "FIX|LI:C2C:-1//53/m<=1a<=4", 8.01 },
{ "FIX|LI:C2C:-1//53/m<=1a>4", 7.79 },
{ "FIX|LI:C2C:0//53/a<=0.25", 7.67 },
{ "FIX|LI:C2C:0//53/a<=0.75", 7.62 },
{ "FIX|LI:C2C:0//53/a<=0.75n", 7.29 },
{ "FIX|LI:C2C:0//53/a<=1", 7.53 },
{ "FIX|LI:C2C:0//53/a<=1.4", 8.32 },
{ "FIX|LI:C2C:0//53/a<=1.4h", 12.9 },
{ "FIX|LI:C2C:0//53/a<=1.4n", 6.94 },
{ "FIX|LI:C2C:0//53/a<=1e+10", 9.12 },
{ "FIX|LI:C2C:0//53/a<=1h", 12.9 },
{ "FIX|LI:C2C:0//53/a<=1n", 7.2 },
{ "FIX|LI:C2C:0//53/a<=4", 8.2 },
{ "FIX|LI:C2C:0//53/a<=4h", 8.1 },
{ "FIX|LI:C2C:0//53/a<=4n", 7.51 },
{ "FIX|LI:C2C:0//53/a>1e+10", 8.39 },
{ "FIX|LI:C2C:0//53/r<=0.25", 12.8 },
{ "FIX|LI:C2C:0//53/r<=0.75", 12.8 },
{ "FIX|LI:C2C:0//53/r<=0.75n", 12.6 },
{ "FIX|LI:C2C:0//53/r<=1", 12.7 },
{ "FIX|LI:C2C:0//53/r<=1.4", 13.3 },
{ "FIX|LI:C2C:0//53/r<=1.4n", 12.2 },
{ "FIX|LI:C2C:0//53/r<=1e+10", 13.1 },
{ "FIX|LI:C2C:0//53/r<=1n", 12.2 },
{ "FIX|LI:C2C:0//53/r<=4", 13.2 },
{ "FIX|LI:C2C:0//53/r<=4h", 12.5 },
{ "FIX|LI:C2C:0//53/r<=4n", 12.5 },
{ "FIX|LI:C2C:0//53/r>1e+10", 13.5 },
{ "FIX|LI:C2C:1//53/a<=0.25", 8.49 },
{ "FIX|LI:C2C:1//53/a<=0.75", 8.46 },
{ "FIX|LI:C2C:1//53/a<=0.75n", 7.47 },
{ "FIX|LI:C2C:1//53/a<=1", 8.09 },
{ "FIX|LI:C2C:1//53/a<=1.4", 8.37 },
{ "FIX|LI:C2C:1//53/a<=1.4h", 12.5 },
{ "FIX|LI:C2C:1//53/a<=1.4n", 6.73 },
{ "FIX|LI:C2C:1//53/a<=1e+10", 8.1 },
{ "FIX|LI:C2C:1//53/a<=1h", 12.5 },
{ "FIX|LI:C2C:1//53/a<=1n", 7.29 },
{ "FIX|LI:C2C:1//53/a<=4", 8.25 },
{ "FIX|LI:C2C:1//53/a<=4h", 6.8 },
{ "FIX|LI:C2C:1//53/a<=4n", 6.58 },
{ "FIX|LI:C2C:1//53/a>1e+10", 8.5 },
{ "FIX|LI:C2C:1//53/r<=0.25", 13.8 },
{ "FIX|LI:C2C:1//53/r<=0.75", 13.4 },
{ "FIX|LI:C2C:1//53/r<=0.75n", 13.3 },
{ "FIX|LI:C2C:1//53/r<=1", 13.1 },
{ "FIX|LI:C2C:1//53/r<=1.4", 13.2 },
{ "FIX|LI:C2C:1//53/r<=1.4n", 12.2 },
{ "FIX|LI:C2C:1//53/r<=1e+10", 13.3 },
{ "FIX|LI:C2C:1//53/r<=1n", 12.2 },
{ "FIX|LI:C2C:1//53/r<=4", 13.7 },
{ "FIX|LI:C2C:1//53/r<=4h", 12.3 },
{ "FIX|LI:C2C:1//53/r<=4n", 12.2 },
{ "FIX|LI:C2C:1//53/r>1e+10", 14.5 },
{ "FIX|LI:C2C:2//53/a<=0.25", 9.96 },
{ "FIX|LI:C2C:2//53/a<=0.75", 8.42 },
{ "FIX|LI:C2C:2//53/a<=0.75n", 10.6 },
{ "FIX|LI:C2C:2//53/a<=1", 8.38 },
{ "FIX|LI:C2C:2//53/a<=1.4", 12.4 },
{ "FIX|LI:C2C:2//53/a<=1.4h", 16.3 },
{ "FIX|LI:C2C:2//53/a<=1.4n", 10.7 },
{ "FIX|LI:C2C:2//53/a<=1e+10", 12.8 },
{ "FIX|LI:C2C:2//53/a<=1h", 14.4 },
{ "FIX|LI:C2C:2//53/a<=1n", 7.78 },
{ "FIX|LI:C2C:2//53/a<=4", 8.41 },
{ "FIX|LI:C2C:2//53/a<=4h", 9.13 },
{ "FIX|LI:C2C:2//53/a<=4n", 9.07 },
{ "FIX|LI:C2C:2//53/a>1e+10", 12.4 },
{ "FIX|LI:C2C:2//53/r<=0.25", 14.7 },
{ "FIX|LI:C2C:2//53/r<=0.75", 24.1 },
{ "FIX|LI:C2C:2//53/r<=0.75n", 46.6 },
{ "FIX|LI:C2C:2//53/r<=1", 37.2 },
{ "FIX|LI:C2C:2//53/r<=1.4", 38.6 },
{ "FIX|LI:C2C:2//53/r<=1.4n", 12.7 },
{ "FIX|LI:C2C:2//53/r<=1e+10", 15.8 },
{ "FIX|LI:C2C:2//53/r<=1n", 13.3 },
{ "FIX|LI:C2C:2//53/r<=4", 15.4 },
{ "FIX|LI:C2C:2//53/r<=4h", 13 },
{ "FIX|LI:C2C:2//53/r<=4n", 14.7 },
{ "FIX|LI:C2C:2//53/r>1e+10", 15.2 },
{ "FIX|LI:C2C:3//53/a<=0.25", 9.42 },
{ "FIX|LI:C2C:3//53/a<=0.75", 9.56 },
{ "FIX|LI:C2C:3//53/a<=0.75n", 16.5 },
{ "FIX|LI:C2C:3//53/a<=1", 28.9 },
{ "FIX|LI:C2C:3//53/a<=1.4", 31.1 },
{ "FIX|LI:C2C:3//53/a<=1.4h", 58.4 },
{ "FIX|LI:C2C:3//53/a<=1.4n", 37.9 },
{ "FIX|LI:C2C:3//53/a<=1e+10", 15.5 },
{ "FIX|LI:C2C:3//53/a<=1h", 52.8 },
{ "FIX|LI:C2C:3//53/a<=1n", 30.2 },
{ "FIX|LI:C2C:3//53/a<=4", 11.9 },
{ "FIX|LI:C2C:3//53/a<=4h", 10.7 },
{ "FIX|LI:C2C:3//53/a<=4n", 8.63 },
{ "FIX|LI:C2C:3//53/a>1e+10", 19.1 },
{ "FIX|LI:C2C:3//53/r<=0.25", 14.8 },
{ "FIX|LI:C2C:3//53/r<=0.75", 16.4 },
{ "FIX|LI:C2C:3//53/r<=0.75n", 52.8 },
{ "FIX|LI:C2C:3//53/r<=1", 14.3 },
{ "FIX|LI:C2C:3//53/r<=1.4", 14.4 },
{ "FIX|LI:C2C:3//53/r<=1.4n", 13.1 },
{ "FIX|LI:C2C:3//53/r<=1e+10", 15.9 },
{ "FIX|LI:C2C:3//53/r<=1n", 13.9 },
{ "FIX|LI:C2C:3//53/r<=4", 13.7 },
{ "FIX|LI:C2C:3//53/r<=4h", 13.3 },
{ "FIX|LI:C2C:3//53/r<=4n", 14.5 },
{ "FIX|LI:C2C:3//53/r>1e+10", 19.1 },
{ "FIX|LI:C2C:4//53/a<=0.25", 9.18 },
{ "FIX|LI:C2C:4//53/a<=0.75", 11.9 },
{ "FIX|LI:C2C:4//53/a<=0.75n", 23.6 },
{ "FIX|LI:C2C:4//53/a<=1", 19.6 },
{ "FIX|LI:C2C:4//53/a<=1.4", 31 },
{ "FIX|LI:C2C:4//53/a<=1.4h", 49.3 },
{ "FIX|LI:C2C:4//53/a<=1.4n", 18.9 },
{ "FIX|LI:C2C:4//53/a<=1e+10", 21.6 },
{ "FIX|LI:C2C:4//53/a<=1h", 35.2 },
{ "FIX|LI:C2C:4//53/a<=1n", 22.8 },
{ "FIX|LI:C2C:4//53/a<=4", 12.6 },
{ "FIX|LI:C2C:4//53/a<=4h", 17.7 },
{ "FIX|LI:C2C:4//53/a<=4n", 15.8 },
{ "FIX|LI:C2C:4//53/a>1e+10", 28.2 },
{ "FIX|LI:C2C:4//53/r<=0.25", 14.9 },
{ "FIX|LI:C2C:4//53/r<=0.75", 15.8 },
{ "FIX|LI:C2C:4//53/r<=0.75n", 385 },
{ "FIX|LI:C2C:4//53/r<=1", 14.5 },
{ "FIX|LI:C2C:4//53/r<=1.4", 15 },
{ "FIX|LI:C2C:4//53/r<=1.4n", 281 },
{ "FIX|LI:C2C:4//53/r<=1e+10", 20.8 },
{ "FIX|LI:C2C:4//53/r<=1n", 486 },
{ "FIX|LI:C2C:4//53/r<=4", 14 },
{ "FIX|LI:C2C:4//53/r<=4h", 13.5 },
{ "FIX|LI:C2C:4//53/r<=4n", 107 },
{ "FIX|LI:C2C:4//53/r>1e+10", 29 },
{ "FIX|LI:C2C:5//53/a<=0.25", 10.2 },
{ "FIX|LI:C2C:5//53/a<=0.75", 9.82 },
{ "FIX|LI:C2C:5//53/a<=0.75n", 12.4 },
{ "FIX|LI:C2C:5//53/a<=1", 9.44 },
{ "FIX|LI:C2C:5//53/a<=1.4", 20.6 },
{ "FIX|LI:C2C:5//53/a<=1.4h", 28.5 },
{ "FIX|LI:C2C:5//53/a<=1.4n", 17.4 },
{ "FIX|LI:C2C:5//53/a<=1e+10", 22.7 },
{ "FIX|LI:C2C:5//53/a<=1h", 13.8 },
{ "FIX|LI:C2C:5//53/a<=1n", 7.99 },
{ "FIX|LI:C2C:5//53/a<=4", 14.1 },
{ "FIX|LI:C2C:5//53/a<=4h", 16.1 },
{ "FIX|LI:C2C:5//53/a<=4n", 11.5 },
{ "FIX|LI:C2C:5//53/a>1e+10", 31 },
{ "FIX|LI:C2C:5//53/r<=0.25", 14.2 },
{ "FIX|LI:C2C:5//53/r<=0.75", 14.2 },
{ "FIX|LI:C2C:5//53/r<=0.75n", 15 },
{ "FIX|LI:C2C:5//53/r<=1", 13.9 },
{ "FIX|LI:C2C:5//53/r<=1.4", 14 },
{ "FIX|LI:C2C:5//53/r<=1.4n", 13.2 },
{ "FIX|LI:C2C:5//53/r<=1e+10", 24.3 },
{ "FIX|LI:C2C:5//53/r<=1n", 13.2 },
{ "FIX|LI:C2C:5//53/r<=4", 14.3 },
{ "FIX|LI:C2C:5//53/r<=4h", 16.2 },
{ "FIX|LI:C2C:5//53/r<=4n", 14.1 },
{ "FIX|LI:C2C:5//53/r>1e+10", 34.8 },
{ "FIX|LI:C2C:6//53/a<=0.25", 9.34 },
{ "FIX|LI:C2C:6//53/a<=0.75", 12.1 },
{ "FIX|LI:C2C:6//53/a<=0.75n", 17.9 },
{ "FIX|LI:C2C:6//53/a<=1", 9.48 },
{ "FIX|LI:C2C:6//53/a<=1.4", 23.2 },
{ "FIX|LI:C2C:6//53/a<=1.4h", 30.5 },
{ "FIX|LI:C2C:6//53/a<=1.4n", 14.5 },
{ "FIX|LI:C2C:6//53/a<=1e+10", 29.9 },
{ "FIX|LI:C2C:6//53/a<=1h", 15.1 },
{ "FIX|LI:C2C:6//53/a<=1n", 8.16 },
{ "FIX|LI:C2C:6//53/a<=4", 10.6 },
{ "FIX|LI:C2C:6//53/a<=4h", 15.3 },
{ "FIX|LI:C2C:6//53/a<=4n", 14.4 },
{ "FIX|LI:C2C:6//53/a>1e+10", 39.1 },
{ "FIX|LI:C2C:6//53/r<=0.25", 14.3 },
{ "FIX|LI:C2C:6//53/r<=0.75", 14.5 },
{ "FIX|LI:C2C:6//53/r<=0.75n", 16.9 },
{ "FIX|LI:C2C:6//53/r<=1", 14.4 },
{ "FIX|LI:C2C:6//53/r<=1.4", 15.6 },
{ "FIX|LI:C2C:6//53/r<=1.4n", 13.5 },
{ "FIX|LI:C2C:6//53/r<=1e+10", 27.7 },
{ "FIX|LI:C2C:6//53/r<=1n", 13.8 },
{ "FIX|LI:C2C:6//53/r<=4", 14.8 },
{ "FIX|LI:C2C:6//53/r<=4h", 16.5 },
{ "FIX|LI:C2C:6//53/r<=4n", 14.2 },
{ "FIX|LI:C2C:6//53/r>1e+10", 40.3 },
{ "HARM:N2R:0/large", 8.84 },
{ "HARM:N2R:0/small", 8.12 },
{ "IMAG|LI:C2C:2//24/x<=-0.25", 8.31 },
{ "IMAG|LI:C2C:2//24/x<=0", 8.06 },
{ "IMAG|LI:C2C:2//24/x<=0.25", 7.99 },
{ "IMAG|LI:C2C:2//24/x<=0.367", 7.37 },
{ "IMAG|LI:C2C:2//24/x<=0.5", 7.75 },
{ "IMAG|LI:C2C:2//24/x<=0.75", 9.85 },
{ "IMAG|LI:C2C:2//24/x>", 7.54 },
{ "IMAG|LI:C2C:2//53/x<=-0.25", 8.48 },
{ "IMAG|LI:C2C:2//53/x<=0", 8.3 },
{ "IMAG|LI:C2C:2//53/x<=0.25", 8.02 },
{ "IMAG|LI:C2C:2//53/x<=0.367", 7.68 },
{ "IMAG|LI:C2C:2//53/x<=0.5", 7.65 },
{ "IMAG|LI:C2C:2//53/x<=0.75", 9.79 },
{ "IMAG|LI:C2C:2//53/x>", 6.4 },
{ "IMAG|LI:C2C:2//64/x<=-0.25", 8.48 },
{ "IMAG|LI:C2C:2//64/x<=0", 8.08 },
{ "IMAG|LI:C2C:2//64/x<=0.25", 7.95 },
{ "IMAG|LI:C2C:2//64/x<=0.367", 7.74 },
{ "IMAG|LI:C2C:2//64/x<=0.5", 7.57 },
{ "IMAG|LI:C2C:2//64/x<=0.75", 9.22 },
{ "IMAG|LI:C2C:2//64/x>", 7.67 },
{ "IMAG|LI:C2C:3//53/x<=-0.25", 9.47 },
{ "IMAG|LI:C2C:3//53/x<=0", 8.79 },
{ "IMAG|LI:C2C:3//53/x<=0.25", 8.59 },
{ "IMAG|LI:C2C:3//53/x<=0.367", 8.22 },
{ "IMAG|LI:C2C:3//53/x<=0.5", 43.8 },
{ "IMAG|LI:C2C:3//53/x<=0.75", 12.8 },
{ "IMAG|LI:C2C:3//53/x>", 7.85 },
{ "IMAG|LI:C2C:3//64/x<=-0.25", 9.05 },
{ "IMAG|LI:C2C:3//64/x<=0", 8.59 },
{ "IMAG|LI:C2C:3//64/x<=0.25", 8.53 },
{ "IMAG|LI:C2C:3//64/x<=0.367", 8.42 },
{ "IMAG|LI:C2C:3//64/x<=0.5", 37.6 },
{ "IMAG|LI:C2C:3//64/x<=0.75", 14.6 },
{ "IMAG|LI:C2C:3//64/x>", 9.37 },
{ "IMAG|LI:C2C:4//53/x<=-0.25", 9.4 },
{ "IMAG|LI:C2C:4//53/x<=0", 8.65 },
{ "IMAG|LI:C2C:4//53/x<=0.25", 8.49 },
{ "IMAG|LI:C2C:4//53/x<=0.367", 8.48 },
{ "IMAG|LI:C2C:4//53/x<=0.5", 23.7 },
{ "IMAG|LI:C2C:4//53/x<=0.75", 15.1 },
{ "IMAG|LI:C2C:4//53/x>", 8.39 },
{ "IMAG|LI:C2C:4//64/x<=-0.25", 9 },
{ "IMAG|LI:C2C:4//64/x<=0", 8.73 },
{ "IMAG|LI:C2C:4//64/x<=0.25", 8.53 },
{ "IMAG|LI:C2C:4//64/x<=0.367", 8.67 },
{ "IMAG|LI:C2C:4//64/x<=0.5", 23.8 },
{ "IMAG|LI:C2C:4//64/x<=0.75", 14.7 },
{ "IMAG|LI:C2C:4//64/x>", 8.59 },
{ "IMAG|LI:C2C:5//53/x<=-0.25", 9.21 },
{ "IMAG|LI:C2C:5//53/x<=0", 8.76 },
{ "IMAG|LI:C2C:5//53/x<=0.25", 8.69 },
{ "IMAG|LI:C2C:5//53/x<=0.367", 8.49 },
{ "IMAG|LI:C2C:5//53/x<=0.5", 16.6 },
{ "IMAG|LI:C2C:5//53/x<=0.75", 8.89 },
{ "IMAG|LI:C2C:5//53/x>", 6.87 },
{ "IMAG|LI:C2C:5//64/x<=-0.25", 9.23 },
{ "IMAG|LI:C2C:5//64/x<=0", 8.56 },
{ "IMAG|LI:C2C:5//64/x<=0.25", 8.55 },
{ "IMAG|LI:C2C:5//64/x<=0.367", 8.68 },
{ "IMAG|LI:C2C:5//64/x<=0.5", 14.6 },
{ "IMAG|LI:C2C:5//64/x<=0.75", 9.01 },
{ "IMAG|LI:C2C:5//64/x>", 7.91 },
{ "IMAG|LI:C2C:6//53/x<=-0.25", 9.26 },
{ "IMAG|LI:C2C:6//53/x<=0", 8.97 },
{ "IMAG|LI:C2C:6//53/x<=0.25", 7.69 },
{ "IMAG|LI:C2C:6//53/x<=0.367", 8.46 },
{ "IMAG|LI:C2C:6//53/x<=0.5", 35.1 },
{ "IMAG|LI:C2C:6//53/x<=0.75", 9.65 },
{ "IMAG|LI:C2C:6//53/x>", 7.25 },
{ "IMAG|LI:C2C:6//64/x<=-0.25", 9.09 },
{ "IMAG|LI:C2C:6//64/x<=0", 8.7 },
{ "IMAG|LI:C2C:6//64/x<=0.25", 8.74 },
{ "IMAG|LI:C2C:6//64/x<=0.367", 8.71 },
{ "IMAG|LI:C2C:6//64/x<=0.5", 20 },
{ "IMAG|LI:C2C:6//64/x<=0.75", 9.12 },
{ "IMAG|LI:C2C:6//64/x>", 7.66 },
{ "IMAG|LI:NC2C:0/1/53/x<=-0.25", 8.2 },
{ "IMAG|LI:NC2C:0/1/53/x<=0", 7.8 },
{ "IMAG|LI:NC2C:0/1/53/x<=0.25", 7.56 },
{ "IMAG|LI:NC2C:0/1/53/x<=0.367", 7.15 },
{ "IMAG|LI:NC2C:0/1/53/x<=0.5", 6.89 },
{ "IMAG|LI:NC2C:0/1/53/x<=0.75", 6.73 },
{ "IMAG|LI:NC2C:0/1/53/x>", 6.2 },
{ "IMAG|LI:NC2C:0/2/53/x<=-0.25", 8.48 },
{ "IMAG|LI:NC2C:0/2/53/x<=0", 8.3 },
{ "IMAG|LI:NC2C:0/2/53/x<=0.25", 8.02 },
{ "IMAG|LI:NC2C:0/2/53/x<=0.367", 7.68 },
{ "IMAG|LI:NC2C:0/2/53/x<=0.5", 7.65 },
{ "IMAG|LI:NC2C:0/2/53/x<=0.75", 11.4 },
{ "IMAG|LI:NC2C:0/2/53/x>", 7.4 },
{ "IMAG|LI:NC2C:0/200+/53/x<=-0.25", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x<=0", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x<=0.25", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x<=0.367", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x<=0.5", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x<=0.75", 6 },
{ "IMAG|LI:NC2C:0/200+/53/x>", 9.78 },
{ "IMAG|LI:NC2C:0/3/53/x<=-0.25", 10.4 },
{ "IMAG|LI:NC2C:0/3/53/x<=0", 8.79 },
{ "IMAG|LI:NC2C:0/3/53/x<=0.25", 8.59 },
{ "IMAG|LI:NC2C:0/3/53/x<=0.367", 8.22 },
{ "IMAG|LI:NC2C:0/3/53/x<=0.5", 52.5 },
{ "IMAG|LI:NC2C:0/3/53/x<=0.75", 15.3 },
{ "IMAG|LI:NC2C:0/3/53/x>", 8.85 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=-0.25", 6.95 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=0", 6.84 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=0.25", 6.96 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=0.367", 6.94 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=0.5", 6.97 },
{ "IMAG|LI:NC2C:0/30-199/53/x<=0.75", 6.95 },
{ "IMAG|LI:NC2C:0/30-199/53/x>", 9.42 },
{ "IMAG|LI:NC2C:0/4/53/x<=-0.25", 10.2 },
{ "IMAG|LI:NC2C:0/4/53/x<=0", 8.65 },
{ "IMAG|LI:NC2C:0/4/53/x<=0.25", 8.49 },
{ "IMAG|LI:NC2C:0/4/53/x<=0.367", 8.48 },
{ "IMAG|LI:NC2C:0/4/53/x<=0.5", 28.5 },
{ "IMAG|LI:NC2C:0/4/53/x<=0.75", 18.2 },
{ "IMAG|LI:NC2C:0/4/53/x>", 10.2 },
{ "IMAG|LI:NC2C:0/5/53/x<=-0.25", 9.62 },
{ "IMAG|LI:NC2C:0/5/53/x<=0", 8.76 },
{ "IMAG|LI:NC2C:0/5/53/x<=0.25", 8.69 },
{ "IMAG|LI:NC2C:0/5/53/x<=0.367", 8.49 },
{ "IMAG|LI:NC2C:0/5/53/x<=0.5", 19.9 },
{ "IMAG|LI:NC2C:0/5/53/x<=0.75", 8.89 },
{ "IMAG|LI:NC2C:0/5/53/x>", 7.87 },
{ "IMAG|LI:NC2C:0/6/53/x<=-0.25", 9.78 },
{ "IMAG|LI:NC2C:0/6/53/x<=0", 8.97 },
{ "IMAG|LI:NC2C:0/6/53/x<=0.25", 8.69 },
{ "IMAG|LI:NC2C:0/6/53/x<=0.367", 8.46 },
{ "IMAG|LI:NC2C:0/6/53/x<=0.5", 42.1 },
{ "IMAG|LI:NC2C:0/6/53/x<=0.75", 11 },
{ "IMAG|LI:NC2C:0/6/53/x>", 8.25 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=-0.25", 15.5 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=0", 9.06 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=0.25", 9.49 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=0.367", 9.59 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=0.5", 13.5 },
{ "IMAG|LI:NC2C:0/7-29/53/x<=0.75", 16.7 },
{ "IMAG|LI:NC2C:0/7-29/53/x>", 10.2 },
{ "IMSIGN|LI:C2C:2//24/a<=0.25", 8.44 },
{ "IMSIGN|LI:C2C:2//24/a<=0.75", 8.16 },
{ "IMSIGN|LI:C2C:2//24/a<=0.75n", 11.8 },
{ "IMSIGN|LI:C2C:2//24/a<=1", 8.33 },
{ "IMSIGN|LI:C2C:2//24/a<=1.4", 16.2 },
{ "IMSIGN|LI:C2C:2//24/a<=1.4h", 18.2 },
{ "IMSIGN|LI:C2C:2//24/a<=1.4n", 11.2 },
{ "IMSIGN|LI:C2C:2//24/a<=1e+10", 9.97 },
{ "IMSIGN|LI:C2C:2//24/a<=1h", 9.02 },
{ "IMSIGN|LI:C2C:2//24/a<=1n", 8.61 },
{ "IMSIGN|LI:C2C:2//24/a<=4", 8.88 },
{ "IMSIGN|LI:C2C:2//24/a<=4h", 11.5 },
{ "IMSIGN|LI:C2C:2//24/a<=4n", 9.46 },
{ "IMSIGN|LI:C2C:2//24/a>1e+10", 9.88 },
{ "IMSIGN|LI:C2C:2//53/a<=0.25", 9.32 },
{ "IMSIGN|LI:C2C:2//53/a<=0.75", 8.42 },
{ "IMSIGN|LI:C2C:2//53/a<=0.75n", 9.55 },
{ "IMSIGN|LI:C2C:2//53/a<=1", 8.38 },
{ "IMSIGN|LI:C2C:2//53/a<=1.4", 10.4 },
{ "IMSIGN|LI:C2C:2//53/a<=1.4h", 12.3 },
{ "IMSIGN|LI:C2C:2//53/a<=1.4n", 9.57 },
{ "IMSIGN|LI:C2C:2//53/a<=1e+10", 9.25 },
{ "IMSIGN|LI:C2C:2//53/a<=1h", 8.44 },
{ "IMSIGN|LI:C2C:2//53/a<=1n", 7.78 },
{ "IMSIGN|LI:C2C:2//53/a<=4", 8.41 },
{ "IMSIGN|LI:C2C:2//53/a<=4h", 8.86 },
{ "IMSIGN|LI:C2C:2//53/a<=4n", 9.02 },
{ "IMSIGN|LI:C2C:2//53/a>1e+10", 10.3 },
{ "IMSIGN|LI:C2C:2//64/a<=0.25", 8.75 },
{ "IMSIGN|LI:C2C:2//64/a<=0.75", 8.1 },
{ "IMSIGN|LI:C2C:2//64/a<=0.75n", 10.3 },
{ "IMSIGN|LI:C2C:2//64/a<=1", 9.13 },
{ "IMSIGN|LI:C2C:2//64/a<=1.4", 11.7 },
{ "IMSIGN|LI:C2C:2//64/a<=1.4h", 11.3 },
{ "IMSIGN|LI:C2C:2//64/a<=1.4n", 9.49 },
{ "IMSIGN|LI:C2C:2//64/a<=1e+10", 8.99 },
{ "IMSIGN|LI:C2C:2//64/a<=1h", 8.47 },
{ "IMSIGN|LI:C2C:2//64/a<=1n", 7.26 },
{ "IMSIGN|LI:C2C:2//64/a<=4", 7.61 },
{ "IMSIGN|LI:C2C:2//64/a<=4h", 9.56 },
{ "IMSIGN|LI:C2C:2//64/a<=4n", 8.26 },
{ "IMSIGN|LI:C2C:2//64/a>1e+10", 9.86 },
{ "IMSIGN|LI:C2C:3//53/a<=0.25", 8.14 },
{ "IMSIGN|LI:C2C:3//53/a<=0.75", 8.19 },
{ "IMSIGN|LI:C2C:3//53/a<=0.75n", 13.7 },
{ "IMSIGN|LI:C2C:3//53/a<=1", 24.1 },
{ "IMSIGN|LI:C2C:3//53/a<=1.4", 25.9 },
{ "IMSIGN|LI:C2C:3//53/a<=1.4h", 36.5 },
{ "IMSIGN|LI:C2C:3//53/a<=1.4n", 25.3 },
{ "IMSIGN|LI:C2C:3//53/a<=1e+10", 10.3 },
{ "IMSIGN|LI:C2C:3//53/a<=1h", 39.6 },
{ "IMSIGN|LI:C2C:3//53/a<=1n", 20.1 },
{ "IMSIGN|LI:C2C:3//53/a<=4", 8.96 },
{ "IMSIGN|LI:C2C:3//53/a<=4h", 9.56 },
{ "IMSIGN|LI:C2C:3//53/a<=4n", 7.63 },
{ "IMSIGN|LI:C2C:3//53/a>1e+10", 12.7 },
{ "IMSIGN|LI:C2C:3//64/a<=0.25", 9.19 },
{ "IMSIGN|LI:C2C:3//64/a<=0.75", 9.25 },
{ "IMSIGN|LI:C2C:3//64/a<=0.75n", 16.7 },
{ "IMSIGN|LI:C2C:3//64/a<=1", 9.06 },
{ "IMSIGN|LI:C2C:3//64/a<=1.4", 12.1 },
{ "IMSIGN|LI:C2C:3//64/a<=1.4h", 12.5 },
{ "IMSIGN|LI:C2C:3//64/a<=1.4n", 7.78 },
{ "IMSIGN|LI:C2C:3//64/a<=1e+10", 11.3 },
{ "IMSIGN|LI:C2C:3//64/a<=1h", 7.22 },
{ "IMSIGN|LI:C2C:3//64/a<=1n", 8.36 },
{ "IMSIGN|LI:C2C:3//64/a<=4", 9.03 },
{ "IMSIGN|LI:C2C:3//64/a<=4h", 9.83 },
{ "IMSIGN|LI:C2C:3//64/a<=4n", 7.13 },
{ "IMSIGN|LI:C2C:3//64/a>1e+10", 14 },
{ "IMSIGN|LI:C2C:4//53/a<=0.25", 8.06 },
{ "IMSIGN|LI:C2C:4//53/a<=0.75", 8.98 },
{ "IMSIGN|LI:C2C:4//53/a<=0.75n", 19.7 },
{ "IMSIGN|LI:C2C:4//53/a<=1", 16.4 },
{ "IMSIGN|LI:C2C:4//53/a<=1.4", 25.9 },
{ "IMSIGN|LI:C2C:4//53/a<=1.4h", 30.8 },
{ "IMSIGN|LI:C2C:4//53/a<=1.4n", 12.6 },
{ "IMSIGN|LI:C2C:4//53/a<=1e+10", 14.4 },
{ "IMSIGN|LI:C2C:4//53/a<=1h", 26.4 },
{ "IMSIGN|LI:C2C:4//53/a<=1n", 15.2 },
{ "IMSIGN|LI:C2C:4//53/a<=4", 9.19 },
{ "IMSIGN|LI:C2C:4//53/a<=4h", 14.8 },
{ "IMSIGN|LI:C2C:4//53/a<=4n", 10.5 },
{ "IMSIGN|LI:C2C:4//53/a>1e+10", 18.8 },
{ "IMSIGN|LI:C2C:4//64/a<=0.25", 9.12 },
{ "IMSIGN|LI:C2C:4//64/a<=0.75", 8.34 },
{ "IMSIGN|LI:C2C:4//64/a<=0.75n", 18.8 },
{ "IMSIGN|LI:C2C:4//64/a<=1", 9.03 },
{ "IMSIGN|LI:C2C:4//64/a<=1.4", 15.6 },
{ "IMSIGN|LI:C2C:4//64/a<=1.4h", 15.8 },
{ "IMSIGN|LI:C2C:4//64/a<=1.4n", 6.8 },
{ "IMSIGN|LI:C2C:4//64/a<=1e+10", 13.6 },
{ "IMSIGN|LI:C2C:4//64/a<=1h", 7.29 },
{ "IMSIGN|LI:C2C:4//64/a<=1n", 7.81 },
{ "IMSIGN|LI:C2C:4//64/a<=4", 9.59 },
{ "IMSIGN|LI:C2C:4//64/a<=4h", 11.1 },
{ "IMSIGN|LI:C2C:4//64/a<=4n", 6.62 },
{ "IMSIGN|LI:C2C:4//64/a>1e+10", 20.6 },
{ "IMSIGN|LI:C2C:5//53/a<=0.25", 8.39 },
{ "IMSIGN|LI:C2C:5//53/a<=0.75", 8.27 },
{ "IMSIGN|LI:C2C:5//53/a<=0.75n", 10.3 },
{ "IMSIGN|LI:C2C:5//53/a<=1", 8.95 },
{ "IMSIGN|LI:C2C:5//53/a<=1.4", 17.1 },
{ "IMSIGN|LI:C2C:5//53/a<=1.4h", 17.8 },
{ "IMSIGN|LI:C2C:5//53/a<=1.4n", 11.6 },
{ "IMSIGN|LI:C2C:5//53/a<=1e+10", 15.1 },
{ "IMSIGN|LI:C2C:5//53/a<=1h", 7.82 },
{ "IMSIGN|LI:C2C:5//53/a<=1n", 6.99 },
{ "IMSIGN|LI:C2C:5//53/a<=4", 9.68 },
{ "IMSIGN|LI:C2C:5//53/a<=4h", 13.4 },
{ "IMSIGN|LI:C2C:5//53/a<=4n", 8.83 },
{ "IMSIGN|LI:C2C:5//53/a>1e+10", 20.6 },
{ "IMSIGN|LI:C2C:5//64/a<=0.25", 8.96 },
{ "IMSIGN|LI:C2C:5//64/a<=0.75", 8.59 },
{ "IMSIGN|LI:C2C:5//64/a<=0.75n", 9.17 },
{ "IMSIGN|LI:C2C:5//64/a<=1", 9.22 },
{ "IMSIGN|LI:C2C:5//64/a<=1.4", 21.7 },
{ "IMSIGN|LI:C2C:5//64/a<=1.4h", 22.4 },
{ "IMSIGN|LI:C2C:5//64/a<=1.4n", 6.67 },
{ "IMSIGN|LI:C2C:5//64/a<=1e+10", 16.1 },
{ "IMSIGN|LI:C2C:5//64/a<=1h", 7.4 },
{ "IMSIGN|LI:C2C:5//64/a<=1n", 6.72 },
{ "IMSIGN|LI:C2C:5//64/a<=4", 12 },
{ "IMSIGN|LI:C2C:5//64/a<=4h", 15.1 },
{ "IMSIGN|LI:C2C:5//64/a<=4n", 6.61 },
{ "IMSIGN|LI:C2C:5//64/a>1e+10", 22 },
{ "IMSIGN|LI:C2C:6//53/a<=0.25", 8.11 },
{ "IMSIGN|LI:C2C:6//53/a<=0.75", 9.04 },
{ "IMSIGN|LI:C2C:6//53/a<=0.75n", 14.9 },
{ "IMSIGN|LI:C2C:6//53/a<=1", 9.16 },
{ "IMSIGN|LI:C2C:6//53/a<=1.4", 19.4 },
{ "IMSIGN|LI:C2C:6//53/a<=1.4h", 19 },
{ "IMSIGN|LI:C2C:6//53/a<=1.4n", 9.82 },
{ "IMSIGN|LI:C2C:6//53/a<=1e+10", 20 },
{ "IMSIGN|LI:C2C:6//53/a<=1h", 9.38 },
{ "IMSIGN|LI:C2C:6//53/a<=1n", 7.16 },
{ "IMSIGN|LI:C2C:6//53/a<=4", 8.55 },
{ "IMSIGN|LI:C2C:6//53/a<=4h", 12.7 },
{ "IMSIGN|LI:C2C:6//53/a<=4n", 9.81 },
{ "IMSIGN|LI:C2C:6//53/a>1e+10", 26.1 },
{ "IMSIGN|LI:C2C:6//64/a<=0.25", 8.82 },
{ "IMSIGN|LI:C2C:6//64/a<=0.75", 8.6 },
{ "IMSIGN|LI:C2C:6//64/a<=0.75n", 9.31 },
{ "IMSIGN|LI:C2C:6//64/a<=1", 9.39 },
{ "IMSIGN|LI:C2C:6//64/a<=1.4", 24 },
{ "IMSIGN|LI:C2C:6//64/a<=1.4h", 28 },
{ "IMSIGN|LI:C2C:6//64/a<=1.4n", 6.52 },
{ "IMSIGN|LI:C2C:6//64/a<=1e+10", 18.2 },
{ "IMSIGN|LI:C2C:6//64/a<=1h", 7.45 },
{ "IMSIGN|LI:C2C:6//64/a<=1n", 6.57 },
{ "IMSIGN|LI:C2C:6//64/a<=4", 10.4 },
{ "IMSIGN|LI:C2C:6//64/a<=4h", 17.1 },
{ "IMSIGN|LI:C2C:6//64/a<=4n", 6.59 },
{ "IMSIGN|LI:C2C:6//64/a>1e+10", 27.2 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=0.25", 8.23 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=0.75", 7.85 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=0.75n", 7.47 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1", 7.81 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1.4", 8.37 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1.4h", 12.5 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1.4n", 6.73 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1e+10", 8.1 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1h", 12.5 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=1n", 7.29 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=4", 8.25 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=4h", 6.8 },
{ "IMSIGN|LI:NC2C:0/1/53/a<=4n", 6.57 },
{ "IMSIGN|LI:NC2C:0/1/53/a>1e+10", 8.31 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=0.25", 9.96 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=0.75", 8.42 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=0.75n", 10.6 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1", 8.38 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1.4", 12.4 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1.4h", 16.3 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1.4n", 10.7 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1e+10", 12.8 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1h", 14.4 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=1n", 7.78 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=4", 8.41 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=4h", 9.13 },
{ "IMSIGN|LI:NC2C:0/2/53/a<=4n", 9.07 },
{ "IMSIGN|LI:NC2C:0/2/53/a>1e+10", 12.4 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=0.25", 6 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=0.75", 6 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=0.75n", 6 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1", 28.7 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1.4", 23.1 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1.4h", 12.5 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1.4n", 14.1 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1e+10", 9.01 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1h", 8.68 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=1n", 9.27 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=4", 14.4 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=4h", 13.7 },
{ "IMSIGN|LI:NC2C:0/200+/53/a<=4n", 19.5 },
{ "IMSIGN|LI:NC2C:0/200+/53/a>1e+10", 7.87 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=0.25", 9.42 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=0.75", 9.56 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=0.75n", 16.5 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1", 28.9 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1.4", 31.1 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1.4h", 58.4 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1.4n", 37.9 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1e+10", 15.5 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1h", 52.8 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=1n", 30.2 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=4", 12.8 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=4h", 10.7 },
{ "IMSIGN|LI:NC2C:0/3/53/a<=4n", 8.63 },
{ "IMSIGN|LI:NC2C:0/3/53/a>1e+10", 19.1 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=0.25", 6.56 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=0.75", 6.97 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=0.75n", 6.97 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1", 36.3 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1.4", 29.2 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1.4h", 12.8 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1.4n", 25.5 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1e+10", 9.17 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1h", 8.87 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=1n", 9.33 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=4", 13.5 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=4h", 14.4 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a<=4n", 23.3 },
{ "IMSIGN|LI:NC2C:0/30-199/53/a>1e+10", 7.87 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=0.25", 9.18 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=0.75", 11.9 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=0.75n", 23.6 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1", 19.6 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1.4", 31 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1.4h", 49.3 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1.4n", 18.9 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1e+10", 21.6 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1h", 35.2 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=1n", 22.8 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=4", 12.6 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=4h", 17.7 },
{ "IMSIGN|LI:NC2C:0/4/53/a<=4n", 15.8 },
{ "IMSIGN|LI:NC2C:0/4/53/a>1e+10", 28.2 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=0.25", 10.2 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=0.75", 9.82 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=0.75n", 12.4 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1", 9.44 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1.4", 20.6 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1.4h", 28.5 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1.4n", 17.4 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1e+10", 22.7 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1h", 13.8 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=1n", 7.99 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=4", 14.1 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=4h", 16.1 },
{ "IMSIGN|LI:NC2C:0/5/53/a<=4n", 11.5 },
{ "IMSIGN|LI:NC2C:0/5/53/a>1e+10", 31 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=0.25", 9.34 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=0.75", 12.1 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=0.75n", 17.9 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1", 9.48 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1.4", 23.2 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1.4h", 30.5 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1.4n", 14.5 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1e+10", 29.9 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1h", 15.1 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=1n", 8.16 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=4", 10.6 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=4h", 15.3 },
{ "IMSIGN|LI:NC2C:0/6/53/a<=4n", 14.4 },
{ "IMSIGN|LI:NC2C:0/6/53/a>1e+10", 39.1 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=0.25", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=0.75", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=0.75n", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1", 24.5 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1.4", 23.7 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1.4h", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1.4n", 12.1 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1e+10", 7.45 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1h", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=1n", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=4", 6 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=4h", 8.53 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a<=4n", 17.3 },
{ "IMSIGN|LI:NC2C:0/7-29/53/a>1e+10", 6 },
{ "INVFAC:N2R:0/large", 6.98 },
{ "INVFAC:N2R:0/small", 6.95 },
{ "INV|LI:C2C:2//24", 7.85 },
{ "INV|LI:C2C:2//24/axis", 13.8 },
{ "INV|LI:C2C:2//53", 7.94 },
{ "INV|LI:C2C:2//53/axis", 14.7 },
{ "INV|LI:C2C:2//64", 7.68 },
{ "INV|LI:C2C:2//64/axis", 13.7 },
{ "INV|LI:C2C:3//53", 17.1 },
{ "INV|LI:C2C:3//53/axis", 27.3 },
{ "INV|LI:C2C:3//64", 8.61 },
{ "INV|LI:C2C:3//64/axis", 14.6 },
{ "INV|LI:C2C:4//53", 11.2 },
{ "INV|LI:C2C:4//53/axis", 17.9 },
{ "INV|LI:C2C:4//64", 10.7 },
{ "INV|LI:C2C:4//64/axis", 15.6 },
{ "INV|LI:C2C:5//53", 10.6 },
{ "INV|LI:C2C:5//53/axis", 16.9 },
{ "INV|LI:C2C:5//64", 13.2 },
{ "INV|LI:C2C:5//64/axis", 17.6 },
{ "INV|LI:C2C:6//53", 13.4 },
{ "INV|LI:C2C:6//53/axis", 21.4 },
{ "INV|LI:C2C:6//64", 16 },
{ "INV|LI:C2C:6//64/axis", 21.3 },
{ "INV|LI:NC2C:0/-1/53", 9.94 },
{ "INV|LI:NC2C:0/-1/53/axis", 15.9 },
{ "INV|LI:NC2C:0/0/53", 6.94 },
{ "INV|LI:NC2C:0/0/53/axis", 12.9 },
{ "INV|LI:NC2C:0/1/53", 6.78 },
{ "INV|LI:NC2C:0/1/53/axis", 12.4 },
{ "INV|LI:NC2C:0/2/53", 7.94 },
{ "INV|LI:NC2C:0/2/53/axis", 14.7 },
{ "INV|LI:NC2C:0/3/53", 20.5 },
{ "INV|LI:NC2C:0/3/53/axis", 27.3 },
{ "INV|LI:NC2C:0/30-199/53", 20.4 },
{ "INV|LI:NC2C:0/30-199/53/axis", 27.2 },
{ "INV|LI:NC2C:0/4/53", 13.4 },
{ "INV|LI:NC2C:0/4/53/axis", 17.9 },
{ "INV|LI:NC2C:0/5/53", 12.7 },
{ "INV|LI:NC2C:0/5/53/axis", 16.9 },
{ "INV|LI:NC2C:0/6/53", 16.1 },
{ "INV|LI:NC2C:0/6/53/axis", 21.4 },
{ "INV|LI:NC2C:0/7-29/53", 17.9 },
{ "INV|LI:NC2C:0/7-29/53/axis", 23.8 },
{ "LANDEN2|LI:C2C:2//24", 7.99 },
{ "LANDEN2|LI:C2C:2//24/axis", 14 },
{ "LANDEN2|LI:C2C:2//53", 8.91 },
{ "LANDEN2|LI:C2C:2//53/axis", 10.9 },
{ "LANDEN2|LI:C2C:2//64", 7.45 },
{ "LANDEN2|LI:C2C:2//64/axis", 13.4 },
{ "LANDEN2|LI:R2R:2//24", 7.13 },
{ "LANDEN2|LI:R2R:2//53", 9.88 },
{ "LANDEN2|LI:R2R:2//64", 8.27 },
{ "LANG|CL:R2R:2//53/t<=0.1", 7.71 },
{ "LANG|CL:R2R:2//53/t<=0.5", 7 },
{ "LANG|CL:R2R:2//53/t<=1", 7.6 },
{ "LANG|CL:R2R:2//53/t<=1.3", 8.2 },
{ "LANG|CL:R2R:2//53/t<=1.5", 7.73 },
{ "LANG|CL:R2R:2//53/t<=1.64", 8.86 },
{ "LANG|CL:R2R:2//53/t<=1.8", 8.62 },
{ "LANG|CL:R2R:2//53/t<=1e-06", 6.47 },
{ "LANG|CL:R2R:2//53/t<=2.1", 8.46 },
{ "LANG|CL:R2R:2//53/t<=2.6", 8.04 },
{ "LANG|CL:R2R:2//53/t<=2.95", 7.07 },
{ "LANG|CL:R2R:2//53/t<=3.1", 6.96 },
{ "LANG|CL:R2R:2//53/t<=3.141", 6.95 },
{ "LANG|CL:R2R:2//53/t>3.141", 6.92 },
{ "LANG|CL:R2R:2//53/u<=0.1", 6.35 },
{ "LANG|CL:R2R:2//53/u<=0.5", 6.35 },
{ "LANG|CL:R2R:2//53/u<=1", 8.21 },
{ "LANG|CL:R2R:2//53/u<=1.3", 7.96 },
{ "LANG|CL:R2R:2//53/u<=1.5", 7.04 },
{ "LANG|CL:R2R:2//53/u<=1.64", 7.67 },
{ "LANG|CL:R2R:2//53/u<=1.8", 7.43 },
{ "LANG|CL:R2R:2//53/u<=1e-06", 6.35 },
{ "LANG|CL:R2R:2//53/u<=2.1", 7.74 },
{ "LANG|CL:R2R:2//53/u<=2.6", 7.64 },
{ "LANG|CL:R2R:2//53/u<=2.95", 7.25 },
{ "LANG|CL:R2R:2//53/u<=3.1", 7.03 },
{ "LANG|CL:R2R:2//53/v<=0.1", 6.69 },
{ "LANG|CL:R2R:2//53/v<=0.5", 6.65 },
{ "LANG|CL:R2R:2//53/v<=1", 7.95 },
{ "LANG|CL:R2R:2//53/v<=1.3", 7.98 },
{ "LANG|CL:R2R:2//53/v<=1.5", 6.95 },
{ "LANG|CL:R2R:2//53/v<=1.64", 6.21 },
{ "LANG|CL:R2R:2//53/v<=1.8", 7.09 },
{ "LANG|CL:R2R:2//53/v<=1e-06", 6.37 },
{ "LANG|CL:R2R:2//53/v<=2.1", 7 },
{ "LANG|CL:R2R:2//53/v<=2.6", 6.88 },
{ "LANG|CL:R2R:2//53/v<=2.95", 6.57 },
{ "LANG|CL:R2R:2//53/v<=3.1", 6.42 },
{ "LANG|CL:R2R:2//53/v<=3.141", 6.37 },
{ "LANG|CL:R2R:2//53/v>3.141", 6.35 },
{ "LANG|CL:R2R:2//64/t<=0.1", 7.78 },
{ "LANG|CL:R2R:2//64/t<=0.5", 8.05 },
{ "LANG|CL:R2R:2//64/t<=1", 8.7 },
{ "LANG|CL:R2R:2//64/t<=1.3", 8.31 },
{ "LANG|CL:R2R:2//64/t<=1.5", 7.75 },
{ "LANG|CL:R2R:2//64/t<=1.64", 13.7 },
{ "LANG|CL:R2R:2//64/t<=1.8", 12.8 },
{ "LANG|CL:R2R:2//64/t<=1e-06", 6.66 },
{ "LANG|CL:R2R:2//64/t<=2.1", 8.67 },
{ "LANG|CL:R2R:2//64/t<=2.6", 7.96 },
{ "LANG|CL:R2R:2//64/t<=2.95", 7.09 },
{ "LANG|CL:R2R:2//64/t<=3.1", 6.6 },
{ "LANG|CL:R2R:2//64/t<=3.141", 6.36 },
{ "LANG|CL:R2R:2//64/t>3.141", 6.3 },
{ "LANG|CL:R2R:2//64/u<=0.1", 6.3 },
{ "LANG|CL:R2R:2//64/u<=0.5", 6.33 },
{ "LANG|CL:R2R:2//64/u<=1", 8.14 },
{ "LANG|CL:R2R:2//64/u<=1.3", 7.94 },
{ "LANG|CL:R2R:2//64/u<=1.5", 7.04 },
{ "LANG|CL:R2R:2//64/u<=1.64", 8.99 },
{ "LANG|CL:R2R:2//64/u<=1.8", 8.25 },
{ "LANG|CL:R2R:2//64/u<=1e-06", 6.3 },
{ "LANG|CL:R2R:2//64/u<=2.1", 7.58 },
{ "LANG|CL:R2R:2//64/u<=2.6", 7.41 },
{ "LANG|CL:R2R:2//64/u<=2.95", 6.82 },
{ "LANG|CL:R2R:2//64/u<=3.1", 6.52 },
{ "LANG|CL:R2R:2//64/v<=0.1", 6.32 },
{ "LANG|CL:R2R:2//64/v<=0.5", 6.5 },
{ "LANG|CL:R2R:2//64/v<=1", 8.08 },
{ "LANG|CL:R2R:2//64/v<=1.3", 7.95 },
{ "LANG|CL:R2R:2//64/v<=1.5", 6.91 },
{ "LANG|CL:R2R:2//64/v<=1.64", 8.01 },
{ "LANG|CL:R2R:2//64/v<=1.8", 7.57 },
{ "LANG|CL:R2R:2//64/v<=1e-06", 6.31 },
{ "LANG|CL:R2R:2//64/v<=2.1", 6.92 },
{ "LANG|CL:R2R:2//64/v<=2.6", 6.77 },
{ "LANG|CL:R2R:2//64/v<=2.95", 6.52 },
{ "LANG|CL:R2R:2//64/v<=3.1", 6.38 },
{ "LANG|CL:R2R:2//64/v<=3.141", 6.31 },
{ "LANG|CL:R2R:2//64/v>3.141", 6.29 },
{ "LANG|CL:R2R:3//53/t<=0.1", 7.21 },
{ "LANG|CL:R2R:3//53/t<=0.5", 6.5 },
{ "LANG|CL:R2R:3//53/t<=1", 6.97 },
{ "LANG|CL:R2R:3//53/t<=1.3", 9.52 },
{ "LANG|CL:R2R:3//53/t<=1.5", 11.6 },
{ "LANG|CL:R2R:3//53/t<=1.64", 11.7 },
{ "LANG|CL:R2R:3//53/t<=1.8", 7.39 },
{ "LANG|CL:R2R:3//53/t<=1e-06", 6.2 },
{ "LANG|CL:R2R:3//53/t<=2.1", 7.73 },
{ "LANG|CL:R2R:3//53/t<=2.6", 7.95 },
{ "LANG|CL:R2R:3//53/t<=2.95", 9.37 },
{ "LANG|CL:R2R:3//53/t<=3.1", 11.8 },
{ "LANG|CL:R2R:3//53/t<=3.141", 14.3 },
{ "LANG|CL:R2R:3//53/t>3.141", 12 },
{ "LANG|CL:R2R:3//53/u<=0.1", 7.2 },
{ "LANG|CL:R2R:3//53/u<=0.5", 6.45 },
{ "LANG|CL:R2R:3//53/u<=1", 6.47 },
{ "LANG|CL:R2R:3//53/u<=1.3", 6.99 },
{ "LANG|CL:R2R:3//53/u<=1.5", 7.31 },
{ "LANG|CL:R2R:3//53/u<=1.64", 7.56 },
{ "LANG|CL:R2R:3//53/u<=1.8", 6.51 },
{ "LANG|CL:R2R:3//53/u<=1e-06", 7.2 },
{ "LANG|CL:R2R:3//53/u<=2.1", 7.29 },
{ "LANG|CL:R2R:3//53/u<=2.6", 7.59 },
{ "LANG|CL:R2R:3//53/u<=2.95", 9.06 },
{ "LANG|CL:R2R:3//53/u<=3.1", 11.3 },
{ "LANG|CL:R2R:3//53/v<=0.1", 7.2 },
{ "LANG|CL:R2R:3//53/v<=0.5", 6.66 },
{ "LANG|CL:R2R:3//53/v<=1", 6.65 },
{ "LANG|CL:R2R:3//53/v<=1.3", 6.92 },
{ "LANG|CL:R2R:3//53/v<=1.5", 7.04 },
{ "LANG|CL:R2R:3//53/v<=1.64", 6.19 },
{ "LANG|CL:R2R:3//53/v<=1.8", 6.58 },
{ "LANG|CL:R2R:3//53/v<=1e-06", 7.2 },
{ "LANG|CL:R2R:3//53/v<=2.1", 6.74 },
{ "LANG|CL:R2R:3//53/v<=2.6", 6.83 },
{ "LANG|CL:R2R:3//53/v<=2.95", 7.97 },
{ "LANG|CL:R2R:3//53/v<=3.1", 9.36 },
{ "LANG|CL:R2R:3//53/v<=3.141", 12.5 },
{ "LANG|CL:R2R:3//53/v>3.141", 12.8 },
{ "LANG|CL:R2R:3//64/t<=0.1", 7.33 },
{ "LANG|CL:R2R:3//64/t<=0.5", 7.71 },
{ "LANG|CL:R2R:3//64/t<=1", 9.04 },
{ "LANG|CL:R2R:3//64/t<=1.3", 10.4 },
{ "LANG|CL:R2R:3//64/t<=1.5", 15.8 },
{ "LANG|CL:R2R:3//64/t<=1.64", 190 },
{ "LANG|CL:R2R:3//64/t<=1.8", 76 },
{ "LANG|CL:R2R:3//64/t<=1e-06", 6.29 },
{ "LANG|CL:R2R:3//64/t<=2.1", 9.8 },
{ "LANG|CL:R2R:3//64/t<=2.6", 8.29 },
{ "LANG|CL:R2R:3//64/t<=2.95", 9.55 },
{ "LANG|CL:R2R:3//64/t<=3.1", 10.7 },
{ "LANG|CL:R2R:3//64/t<=3.141", 17.4 },
{ "LANG|CL:R2R:3//64/t>3.141", 13 },
{ "LANG|CL:R2R:3//64/u<=0.1", 7.29 },
{ "LANG|CL:R2R:3//64/u<=0.5", 6.49 },
{ "LANG|CL:R2R:3//64/u<=1", 6.72 },
{ "LANG|CL:R2R:3//64/u<=1.3", 7.11 },
{ "LANG|CL:R2R:3//64/u<=1.5", 7.86 },
{ "LANG|CL:R2R:3//64/u<=1.64", 67.1 },
{ "LANG|CL:R2R:3//64/u<=1.8", 34.5 },
{ "LANG|CL:R2R:3//64/u<=1e-06", 7.29 },
{ "LANG|CL:R2R:3//64/u<=2.1", 7.68 },
{ "LANG|CL:R2R:3//64/u<=2.6", 8.06 },
{ "LANG|CL:R2R:3//64/u<=2.95", 9.69 },
{ "LANG|CL:R2R:3//64/u<=3.1", 12.2 },
{ "LANG|CL:R2R:3//64/v<=0.1", 7.29 },
{ "LANG|CL:R2R:3//64/v<=0.5", 6.66 },
{ "LANG|CL:R2R:3//64/v<=1", 6.78 },
{ "LANG|CL:R2R:3//64/v<=1.3", 6.95 },
{ "LANG|CL:R2R:3//64/v<=1.5", 7.54 },
{ "LANG|CL:R2R:3//64/v<=1.64", 40.4 },
{ "LANG|CL:R2R:3//64/v<=1.8", 16.1 },
{ "LANG|CL:R2R:3//64/v<=1e-06", 7.29 },
{ "LANG|CL:R2R:3//64/v<=2.1", 6.93 },
{ "LANG|CL:R2R:3//64/v<=2.6", 7.04 },
{ "LANG|CL:R2R:3//64/v<=2.95", 8.03 },
{ "LANG|CL:R2R:3//64/v<=3.1", 9.18 },
{ "LANG|CL:R2R:3//64/v<=3.141", 13.8 },
{ "LANG|CL:R2R:3//64/v>3.141", 11.9 },
{ "LANG|CL:R2R:4//53/t<=0.1", 7.07 },
{ "LANG|CL:R2R:4//53/t<=0.5", 7.52 },
{ "LANG|CL:R2R:4//53/t<=1", 7.92 },
{ "LANG|CL:R2R:4//53/t<=1.3", 9.54 },
{ "LANG|CL:R2R:4//53/t<=1.5", 14.7 },
{ "LANG|CL:R2R:4//53/t<=1.64", 14.6 },
{ "LANG|CL:R2R:4//53/t<=1.8", 9.76 },
{ "LANG|CL:R2R:4//53/t<=1e-06", 6.07 },
{ "LANG|CL:R2R:4//53/t<=2.1", 8.84 },
{ "LANG|CL:R2R:4//53/t<=2.6", 7.97 },
{ "LANG|CL:R2R:4//53/t<=2.95", 7.09 },
{ "LANG|CL:R2R:4//53/t<=3.1", 6.96 },
{ "LANG|CL:R2R:4//53/t<=3.141", 6.94 },
{ "LANG|CL:R2R:4//53/t>3.141", 6.92 },
{ "LANG|CL:R2R:4//53/u<=0.1", 6.35 },
{ "LANG|CL:R2R:4//53/u<=0.5", 6.24 },
{ "LANG|CL:R2R:4//53/u<=1", 6.9 },
{ "LANG|CL:R2R:4//53/u<=1.3", 8.31 },
{ "LANG|CL:R2R:4//53/u<=1.5", 13.6 },
{ "LANG|CL:R2R:4//53/u<=1.64", 11.3 },
{ "LANG|CL:R2R:4//53/u<=1.8", 8.47 },
{ "LANG|CL:R2R:4//53/u<=1e-06", 6.35 },
{ "LANG|CL:R2R:4//53/u<=2.1", 7.61 },
{ "LANG|CL:R2R:4//53/u<=2.6", 7.51 },
{ "LANG|CL:R2R:4//53/u<=2.95", 7.29 },
{ "LANG|CL:R2R:4//53/u<=3.1", 7.07 },
{ "LANG|CL:R2R:4//53/v<=0.1", 6.4 },
{ "LANG|CL:R2R:4//53/v<=0.5", 6.41 },
{ "LANG|CL:R2R:4//53/v<=1", 6.6 },
{ "LANG|CL:R2R:4//53/v<=1.3", 7.56 },
{ "LANG|CL:R2R:4//53/v<=1.5", 14.1 },
{ "LANG|CL:R2R:4//53/v<=1.64", 8.62 },
{ "LANG|CL:R2R:4//53/v<=1.8", 7.58 },
{ "LANG|CL:R2R:4//53/v<=1e-06", 6.35 },
{ "LANG|CL:R2R:4//53/v<=2.1", 7.08 },
{ "LANG|CL:R2R:4//53/v<=2.6", 6.85 },
{ "LANG|CL:R2R:4//53/v<=2.95", 6.57 },
{ "LANG|CL:R2R:4//53/v<=3.1", 6.43 },
{ "LANG|CL:R2R:4//53/v<=3.141", 6.39 },
{ "LANG|CL:R2R:4//53/v>3.141", 6.35 },
{ "LANG|CL:R2R:4//64/t<=0.1", 7.46 },
{ "LANG|CL:R2R:4//64/t<=0.5", 7.37 },
{ "LANG|CL:R2R:4//64/t<=1", 8.09 },
{ "LANG|CL:R2R:4//64/t<=1.3", 9.26 },
{ "LANG|CL:R2R:4//64/t<=1.5", 14.5 },
{ "LANG|CL:R2R:4//64/t<=1.64", 80.9 },
{ "LANG|CL:R2R:4//64/t<=1.8", 34.9 },
{ "LANG|CL:R2R:4//64/t<=1e-06", 6.12 },
{ "LANG|CL:R2R:4//64/t<=2.1", 10 },
{ "LANG|CL:R2R:4//64/t<=2.6", 8.71 },
{ "LANG|CL:R2R:4//64/t<=2.95", 7.4 },
{ "LANG|CL:R2R:4//64/t<=3.1", 6.57 },
{ "LANG|CL:R2R:4//64/t<=3.141", 6.35 },
{ "LANG|CL:R2R:4//64/t>3.141", 6.3 },
{ "LANG|CL:R2R:4//64/u<=0.1", 6.3 },
{ "LANG|CL:R2R:4//64/u<=0.5", 6.21 },
{ "LANG|CL:R2R:4//64/u<=1", 6.73 },
{ "LANG|CL:R2R:4//64/u<=1.3", 8.01 },
{ "LANG|CL:R2R:4//64/u<=1.5", 15.5 },
{ "LANG|CL:R2R:4//64/u<=1.64", 57.8 },
{ "LANG|CL:R2R:4//64/u<=1.8", 29 },
{ "LANG|CL:R2R:4//64/u<=1e-06", 6.29 },
{ "LANG|CL:R2R:4//64/u<=2.1", 8.26 },
{ "LANG|CL:R2R:4//64/u<=2.6", 7.4 },
{ "LANG|CL:R2R:4//64/u<=2.95", 6.84 },
{ "LANG|CL:R2R:4//64/u<=3.1", 6.49 },
{ "LANG|CL:R2R:4//64/v<=0.1", 6.3 },
{ "LANG|CL:R2R:4//64/v<=0.5", 6.37 },
{ "LANG|CL:R2R:4//64/v<=1", 6.57 },
{ "LANG|CL:R2R:4//64/v<=1.3", 7.72 },
{ "LANG|CL:R2R:4//64/v<=1.5", 11.9 },
{ "LANG|CL:R2R:4//64/v<=1.64", 44.6 },
{ "LANG|CL:R2R:4//64/v<=1.8", 17.4 },
{ "LANG|CL:R2R:4//64/v<=1e-06", 6.29 },
{ "LANG|CL:R2R:4//64/v<=2.1", 7.72 },
{ "LANG|CL:R2R:4//64/v<=2.6", 7.09 },
{ "LANG|CL:R2R:4//64/v<=2.95", 6.59 },
{ "LANG|CL:R2R:4//64/v<=3.1", 6.36 },
{ "LANG|CL:R2R:4//64/v<=3.141", 6.31 },
{ "LANG|CL:R2R:4//64/v>3.141", 6.29 },
{ "LANG|CL:R2R:5//53/t<=0.1", 11.8 },
{ "LANG|CL:R2R:5//53/t<=0.5", 9.61 },
{ "LANG|CL:R2R:5//53/t<=1", 7.59 },
{ "LANG|CL:R2R:5//53/t<=1.3", 7.98 },
{ "LANG|CL:R2R:5//53/t<=1.5", 7.77 },
{ "LANG|CL:R2R:5//53/t<=1.64", 7.87 },
{ "LANG|CL:R2R:5//53/t<=1.8", 7.46 },
{ "LANG|CL:R2R:5//53/t<=1e-06", 7.9 },
{ "LANG|CL:R2R:5//53/t<=2.1", 7.64 },
{ "LANG|CL:R2R:5//53/t<=2.6", 7.79 },
{ "LANG|CL:R2R:5//53/t<=2.95", 9 },
{ "LANG|CL:R2R:5//53/t<=3.1", 10.4 },
{ "LANG|CL:R2R:5//53/t<=3.141", 13.2 },
{ "LANG|CL:R2R:5//53/t>3.141", 11.1 },
{ "LANG|CL:R2R:5//53/u<=0.1", 10.8 },
{ "LANG|CL:R2R:5//53/u<=0.5", 8.65 },
{ "LANG|CL:R2R:5//53/u<=1", 6.77 },
{ "LANG|CL:R2R:5//53/u<=1.3", 6.48 },
{ "LANG|CL:R2R:5//53/u<=1.5", 6.52 },
{ "LANG|CL:R2R:5//53/u<=1.64", 6.56 },
{ "LANG|CL:R2R:5//53/u<=1.8", 6.51 },
{ "LANG|CL:R2R:5//53/u<=1e-06", 8.9 },
{ "LANG|CL:R2R:5//53/u<=2.1", 7.29 },
{ "LANG|CL:R2R:5//53/u<=2.6", 7.74 },
{ "LANG|CL:R2R:5//53/u<=2.95", 8.84 },
{ "LANG|CL:R2R:5//53/u<=3.1", 10.9 },
{ "LANG|CL:R2R:5//53/v<=0.1", 11.4 },
{ "LANG|CL:R2R:5//53/v<=0.5", 8.22 },
{ "LANG|CL:R2R:5//53/v<=1", 6.63 },
{ "LANG|CL:R2R:5//53/v<=1.3", 6.57 },
{ "LANG|CL:R2R:5//53/v<=1.5", 6.6 },
{ "LANG|CL:R2R:5//53/v<=1.64", 5.65 },
{ "LANG|CL:R2R:5//53/v<=1.8", 6.58 },
{ "LANG|CL:R2R:5//53/v<=1e-06", 8.9 },
{ "LANG|CL:R2R:5//53/v<=2.1", 6.74 },
{ "LANG|CL:R2R:5//53/v<=2.6", 6.84 },
{ "LANG|CL:R2R:5//53/v<=2.95", 7.66 },
{ "LANG|CL:R2R:5//53/v<=3.1", 8.74 },
{ "LANG|CL:R2R:5//53/v<=3.141", 12.6 },
{ "LANG|CL:R2R:5//53/v>3.141", 12.5 },
{ "LANG|CL:R2R:5//64/t<=0.1", 12.8 },
{ "LANG|CL:R2R:5//64/t<=0.5", 12.5 },
{ "LANG|CL:R2R:5//64/t<=1", 8.88 },
{ "LANG|CL:R2R:5//64/t<=1.3", 8.04 },
{ "LANG|CL:R2R:5//64/t<=1.5", 8.12 },
{ "LANG|CL:R2R:5//64/t<=1.64", 306 },
{ "LANG|CL:R2R:5//64/t<=1.8", 73.3 },
{ "LANG|CL:R2R:5//64/t<=1e-06", 7.5 },
{ "LANG|CL:R2R:5//64/t<=2.1", 9.49 },
{ "LANG|CL:R2R:5//64/t<=2.6", 8.04 },
{ "LANG|CL:R2R:5//64/t<=2.95", 9.32 },
{ "LANG|CL:R2R:5//64/t<=3.1", 10.5 },
{ "LANG|CL:R2R:5//64/t<=3.141", 15.3 },
{ "LANG|CL:R2R:5//64/t>3.141", 12.1 },
{ "LANG|CL:R2R:5//64/u<=0.1", 11.7 },
{ "LANG|CL:R2R:5//64/u<=0.5", 8.7 },
{ "LANG|CL:R2R:5//64/u<=1", 6.76 },
{ "LANG|CL:R2R:5//64/u<=1.3", 6.52 },
{ "LANG|CL:R2R:5//64/u<=1.5", 6.59 },
{ "LANG|CL:R2R:5//64/u<=1.64", 92.9 },
{ "LANG|CL:R2R:5//64/u<=1.8", 33.5 },
{ "LANG|CL:R2R:5//64/u<=1e-06", 8.42 },
{ "LANG|CL:R2R:5//64/u<=2.1", 7.37 },
{ "LANG|CL:R2R:5//64/u<=2.6", 7.86 },
{ "LANG|CL:R2R:5//64/u<=2.95", 9 },
{ "LANG|CL:R2R:5//64/u<=3.1", 11.7 },
{ "LANG|CL:R2R:5//64/v<=0.1", 9.91 },
{ "LANG|CL:R2R:5//64/v<=0.5", 8.46 },
{ "LANG|CL:R2R:5//64/v<=1", 6.78 },
{ "LANG|CL:R2R:5//64/v<=1.3", 6.52 },
{ "LANG|CL:R2R:5//64/v<=1.5", 6.5 },
{ "LANG|CL:R2R:5//64/v<=1.64", 57.8 },
{ "LANG|CL:R2R:5//64/v<=1.8", 15.7 },
{ "LANG|CL:R2R:5//64/v<=1e-06", 8.47 },
{ "LANG|CL:R2R:5//64/v<=2.1", 6.79 },
{ "LANG|CL:R2R:5//64/v<=2.6", 6.87 },
{ "LANG|CL:R2R:5//64/v<=2.95", 7.74 },
{ "LANG|CL:R2R:5//64/v<=3.1", 9.27 },
{ "LANG|CL:R2R:5//64/v<=3.141", 12.6 },
{ "LANG|CL:R2R:5//64/v>3.141", 13.6 },
{ "LANG|CL:R2R:6//53/t<=0.1", 8.53 },
{ "LANG|CL:R2R:6//53/t<=0.5", 8.18 },
{ "LANG|CL:R2R:6//53/t<=1", 7.77 },
{ "LANG|CL:R2R:6//53/t<=1.3", 9.02 },
{ "LANG|CL:R2R:6//53/t<=1.5", 10.8 },
{ "LANG|CL:R2R:6//53/t<=1.64", 11.8 },
{ "LANG|CL:R2R:6//53/t<=1.8", 9.42 },
{ "LANG|CL:R2R:6//53/t<=1e-06", 6.73 },
{ "LANG|CL:R2R:6//53/t<=2.1", 8.5 },
{ "LANG|CL:R2R:6//53/t<=2.6", 8.06 },
{ "LANG|CL:R2R:6//53/t<=2.95", 7.13 },
{ "LANG|CL:R2R:6//53/t<=3.1", 6.96 },
{ "LANG|CL:R2R:6//53/t<=3.141", 6.96 },
{ "LANG|CL:R2R:6//53/t>3.141", 6.92 },
{ "LANG|CL:R2R:6//53/u<=0.1", 6.36 },
{ "LANG|CL:R2R:6//53/u<=0.5", 6.4 },
{ "LANG|CL:R2R:6//53/u<=1", 6.93 },
{ "LANG|CL:R2R:6//53/u<=1.3", 7.67 },
{ "LANG|CL:R2R:6//53/u<=1.5", 9.37 },
{ "LANG|CL:R2R:6//53/u<=1.64", 11 },
{ "LANG|CL:R2R:6//53/u<=1.8", 8.65 },
{ "LANG|CL:R2R:6//53/u<=1e-06", 6.35 },
{ "LANG|CL:R2R:6//53/u<=2.1", 7.8 },
{ "LANG|CL:R2R:6//53/u<=2.6", 7.66 },
{ "LANG|CL:R2R:6//53/u<=2.95", 7.33 },
{ "LANG|CL:R2R:6//53/u<=3.1", 7.08 },
{ "LANG|CL:R2R:6//53/v<=0.1", 6.39 },
{ "LANG|CL:R2R:6//53/v<=0.5", 6.49 },
{ "LANG|CL:R2R:6//53/v<=1", 6.66 },
{ "LANG|CL:R2R:6//53/v<=1.3", 7.39 },
{ "LANG|CL:R2R:6//53/v<=1.5", 8.93 },
{ "LANG|CL:R2R:6//53/v<=1.64", 9.01 },
{ "LANG|CL:R2R:6//53/v<=1.8", 8.01 },
{ "LANG|CL:R2R:6//53/v<=1e-06", 6.35 },
{ "LANG|CL:R2R:6//53/v<=2.1", 7.04 },
{ "LANG|CL:R2R:6//53/v<=2.6", 6.94 },
{ "LANG|CL:R2R:6//53/v<=2.95", 6.59 },
{ "LANG|CL:R2R:6//53/v<=3.1", 6.43 },
{ "LANG|CL:R2R:6//53/v<=3.141", 6.37 },
{ "LANG|CL:R2R:6//53/v>3.141", 6.35 },
{ "LANG|CL:R2R:6//64/t<=0.1", 8.69 },
{ "LANG|CL:R2R:6//64/t<=0.5", 8.89 },
{ "LANG|CL:R2R:6//64/t<=1", 8.6 },
{ "LANG|CL:R2R:6//64/t<=1.3", 9.61 },
{ "LANG|CL:R2R:6//64/t<=1.5", 13.6 },
{ "LANG|CL:R2R:6//64/t<=1.64", 856 },
{ "LANG|CL:R2R:6//64/t<=1.8", 308 },
{ "LANG|CL:R2R:6//64/t<=1e-06", 6.62 },
{ "LANG|CL:R2R:6//64/t<=2.1", 23 },
{ "LANG|CL:R2R:6//64/t<=2.6", 8.87 },
{ "LANG|CL:R2R:6//64/t<=2.95", 7.45 },
{ "LANG|CL:R2R:6//64/t<=3.1", 6.59 },
{ "LANG|CL:R2R:6//64/t<=3.141", 6.36 },
{ "LANG|CL:R2R:6//64/t>3.141", 6.3 },
{ "LANG|CL:R2R:6//64/u<=0.1", 6.3 },
{ "LANG|CL:R2R:6//64/u<=0.5", 6.34 },
{ "LANG|CL:R2R:6//64/u<=1", 6.89 },
{ "LANG|CL:R2R:6//64/u<=1.3", 8.15 },
{ "LANG|CL:R2R:6//64/u<=1.5", 11.6 },
{ "LANG|CL:R2R:6//64/u<=1.64", 839 },
{ "LANG|CL:R2R:6//64/u<=1.8", 221 },
{ "LANG|CL:R2R:6//64/u<=1e-06", 6.29 },
{ "LANG|CL:R2R:6//64/u<=2.1", 17.6 },
{ "LANG|CL:R2R:6//64/u<=2.6", 7.61 },
{ "LANG|CL:R2R:6//64/u<=2.95", 6.94 },
{ "LANG|CL:R2R:6//64/u<=3.1", 6.48 },
{ "LANG|CL:R2R:6//64/v<=0.1", 6.35 },
{ "LANG|CL:R2R:6//64/v<=0.5", 6.5 },
{ "LANG|CL:R2R:6//64/v<=1", 6.76 },
{ "LANG|CL:R2R:6//64/v<=1.3", 7.69 },
{ "LANG|CL:R2R:6//64/v<=1.5", 9.42 },
{ "LANG|CL:R2R:6//64/v<=1.64", 739 },
{ "LANG|CL:R2R:6//64/v<=1.8", 129 },
{ "LANG|CL:R2R:6//64/v<=1e-06", 6.29 },
{ "LANG|CL:R2R:6//64/v<=2.1", 9.78 },
{ "LANG|CL:R2R:6//64/v<=2.6", 7.21 },
{ "LANG|CL:R2R:6//64/v<=2.95", 6.58 },
{ "LANG|CL:R2R:6//64/v<=3.1", 6.38 },
{ "LANG|CL:R2R:6//64/v<=3.141", 6.31 },
{ "LANG|CL:R2R:6//64/v>3.141", 6.29 },
{ "LANG|LI:C2C:2//24/a<=0.25", 8.44 },
{ "LANG|LI:C2C:2//24/a<=0.75", 8.16 },
{ "LANG|LI:C2C:2//24/a<=0.75n", 11.8 },
{ "LANG|LI:C2C:2//24/a<=1", 8.33 },
{ "LANG|LI:C2C:2//24/a<=1.4", 16.2 },
{ "LANG|LI:C2C:2//24/a<=1.4h", 18.2 },
{ "LANG|LI:C2C:2//24/a<=1.4n", 11.2 },
{ "LANG|LI:C2C:2//24/a<=1e+10", 9.97 },
{ "LANG|LI:C2C:2//24/a<=1h", 12.5 },
{ "LANG|LI:C2C:2//24/a<=1n", 8.61 },
{ "LANG|LI:C2C:2//24/a<=4", 8.88 },
{ "LANG|LI:C2C:2//24/a<=4h", 11.5 },
{ "LANG|LI:C2C:2//24/a<=4n", 9.46 },
{ "LANG|LI:C2C:2//24/a>1e+10", 9.88 },
{ "LANG|LI:C2C:2//24/r<=0.25", 10.3 },
{ "LANG|LI:C2C:2//24/r<=0.75", 9.73 },
{ "LANG|LI:C2C:2//24/r<=0.75n", 13.6 },
{ "LANG|LI:C2C:2//24/r<=1", 9.57 },
{ "LANG|LI:C2C:2//24/r<=1.4", 15.9 },
{ "LANG|LI:C2C:2//24/r<=1.4n", 7.15 },
{ "LANG|LI:C2C:2//24/r<=1e+10", 8.73 },
{ "LANG|LI:C2C:2//24/r<=1n", 7.26 },
{ "LANG|LI:C2C:2//24/r<=4", 8.55 },
{ "LANG|LI:C2C:2//24/r<=4h", 13.4 },
{ "LANG|LI:C2C:2//24/r<=4n", 7.45 },
{ "LANG|LI:C2C:2//24/r>1e+10", 9.01 },
{ "LANG|LI:C2C:2//53/a<=0.25", 9.32 },
{ "LANG|LI:C2C:2//53/a<=0.75", 8.42 },
{ "LANG|LI:C2C:2//53/a<=0.75n", 9.55 },
{ "LANG|LI:C2C:2//53/a<=1", 8.38 },
{ "LANG|LI:C2C:2//53/a<=1.4", 10.4 },
{ "LANG|LI:C2C:2//53/a<=1.4h", 12.3 },
{ "LANG|LI:C2C:2//53/a<=1.4n", 9.57 },
{ "LANG|LI:C2C:2//53/a<=1e+10", 9.25 },
{ "LANG|LI:C2C:2//53/a<=1h", 13 },
{ "LANG|LI:C2C:2//53/a<=1n", 7.78 },
{ "LANG|LI:C2C:2//53/a<=4", 8.41 },
{ "LANG|LI:C2C:2//53/a<=4h", 8.86 },
{ "LANG|LI:C2C:2//53/a<=4n", 9.02 },
{ "LANG|LI:C2C:2//53/a>1e+10", 10.3 },
{ "LANG|LI:C2C:2//53/r<=0.25", 8.71 },
{ "LANG|LI:C2C:2//53/r<=0.75", 18.1 },
{ "LANG|LI:C2C:2//53/r<=0.75n", 34.9 },
{ "LANG|LI:C2C:2//53/r<=1", 27.9 },
{ "LANG|LI:C2C:2//53/r<=1.4", 29 },
{ "LANG|LI:C2C:2//53/r<=1.4n", 6.72 },
{ "LANG|LI:C2C:2//53/r<=1e+10", 8.97 },
{ "LANG|LI:C2C:2//53/r<=1n", 12.7 },
{ "LANG|LI:C2C:2//53/r<=4", 10.1 },
{ "LANG|LI:C2C:2//53/r<=4h", 13 },
{ "LANG|LI:C2C:2//53/r<=4n", 8.74 },
{ "LANG|LI:C2C:2//53/r>1e+10", 9.55 },
{ "LANG|LI:C2C:2//64/a<=0.25", 8.75 },
{ "LANG|LI:C2C:2//64/a<=0.75", 8.1 },
{ "LANG|LI:C2C:2//64/a<=0.75n", 10.3 },
{ "LANG|LI:C2C:2//64/a<=1", 9.13 },
{ "LANG|LI:C2C:2//64/a<=1.4", 11.7 },
{ "LANG|LI:C2C:2//64/a<=1.4h", 12.9 },
{ "LANG|LI:C2C:2//64/a<=1.4n", 9.49 },
{ "LANG|LI:C2C:2//64/a<=1e+10", 8.99 },
{ "LANG|LI:C2C:2//64/a<=1h", 12.5 },
{ "LANG|LI:C2C:2//64/a<=1n", 7.26 },
{ "LANG|LI:C2C:2//64/a<=4", 7.61 },
{ "LANG|LI:C2C:2//64/a<=4h", 9.56 },
{ "LANG|LI:C2C:2//64/a<=4n", 8.26 },
{ "LANG|LI:C2C:2//64/a>1e+10", 9.86 },
{ "LANG|LI:C2C:2//64/r<=0.25", 7.96 },
{ "LANG|LI:C2C:2//64/r<=0.75", 8.63 },
{ "LANG|LI:C2C:2//64/r<=0.75n", 15 },
{ "LANG|LI:C2C:2//64/r<=1", 11.1 },
{ "LANG|LI:C2C:2//64/r<=1.4", 14.3 },
{ "LANG|LI:C2C:2//64/r<=1.4n", 7 },
{ "LANG|LI:C2C:2//64/r<=1e+10", 10.5 },
{ "LANG|LI:C2C:2//64/r<=1n", 7.28 },
{ "LANG|LI:C2C:2//64/r<=4", 8.13 },
{ "LANG|LI:C2C:2//64/r<=4h", 7.14 },
{ "LANG|LI:C2C:2//64/r<=4n", 7.62 },
{ "LANG|LI:C2C:2//64/r>1e+10", 12.2 },
{ "LANG|LI:C2C:3//53/a<=0.25", 8.14 },
{ "LANG|LI:C2C:3//53/a<=0.75", 8.19 },
{ "LANG|LI:C2C:3//53/a<=0.75n", 13.7 },
{ "LANG|LI:C2C:3//53/a<=1", 24.1 },
{ "LANG|LI:C2C:3//53/a<=1.4", 25.9 },
{ "LANG|LI:C2C:3//53/a<=1.4h", 36.5 },
{ "LANG|LI:C2C:3//53/a<=1.4n", 25.3 },
{ "LANG|LI:C2C:3//53/a<=1e+10", 10.3 },
{ "LANG|LI:C2C:3//53/a<=1h", 39.6 },
{ "LANG|LI:C2C:3//53/a<=1n", 20.1 },
{ "LANG|LI:C2C:3//53/a<=4", 8.96 },
{ "LANG|LI:C2C:3//53/a<=4h", 9.56 },
{ "LANG|LI:C2C:3//53/a<=4n", 7.63 },
{ "LANG|LI:C2C:3//53/a>1e+10", 12.7 },
{ "LANG|LI:C2C:3//53/r<=0.25", 8.81 },
{ "LANG|LI:C2C:3//53/r<=0.75", 12.3 },
{ "LANG|LI:C2C:3//53/r<=0.75n", 39.6 },
{ "LANG|LI:C2C:3//53/r<=1", 8.33 },
{ "LANG|LI:C2C:3//53/r<=1.4", 8.37 },
{ "LANG|LI:C2C:3//53/r<=1.4n", 12.1 },
{ "LANG|LI:C2C:3//53/r<=1e+10", 11.6 },
{ "LANG|LI:C2C:3//53/r<=1n", 7.88 },
{ "LANG|LI:C2C:3//53/r<=4", 7.66 },
{ "LANG|LI:C2C:3//53/r<=4h", 12.8 },
{ "LANG|LI:C2C:3//53/r<=4n", 8.5 },
{ "LANG|LI:C2C:3//53/r>1e+10", 14.3 },
{ "LANG|LI:C2C:3//64/a<=0.25", 9.19 },
{ "LANG|LI:C2C:3//64/a<=0.75", 9.25 },
{ "LANG|LI:C2C:3//64/a<=0.75n", 16.7 },
{ "LANG|LI:C2C:3//64/a<=1", 9.06 },
{ "LANG|LI:C2C:3//64/a<=1.4", 12.1 },
{ "LANG|LI:C2C:3//64/a<=1.4h", 12.5 },
{ "LANG|LI:C2C:3//64/a<=1.4n", 7.78 },
{ "LANG|LI:C2C:3//64/a<=1e+10", 11.3 },
{ "LANG|LI:C2C:3//64/a<=1h", 13.1 },
{ "LANG|LI:C2C:3//64/a<=1n", 8.36 },
{ "LANG|LI:C2C:3//64/a<=4", 9.03 },
{ "LANG|LI:C2C:3//64/a<=4h", 9.83 },
{ "LANG|LI:C2C:3//64/a<=4n", 7.13 },
{ "LANG|LI:C2C:3//64/a>1e+10", 14 },
{ "LANG|LI:C2C:3//64/r<=0.25", 8.87 },
{ "LANG|LI:C2C:3//64/r<=0.75", 13.5 },
{ "LANG|LI:C2C:3//64/r<=0.75n", 13.1 },
{ "LANG|LI:C2C:3//64/r<=1", 13.4 },
{ "LANG|LI:C2C:3//64/r<=1.4", 13.2 },
{ "LANG|LI:C2C:3//64/r<=1.4n", 6.88 },
{ "LANG|LI:C2C:3//64/r<=1e+10", 12.9 },
{ "LANG|LI:C2C:3//64/r<=1n", 7.15 },
{ "LANG|LI:C2C:3//64/r<=4", 13.7 },
{ "LANG|LI:C2C:3//64/r<=4h", 12.5 },
{ "LANG|LI:C2C:3//64/r<=4n", 12.7 },
{ "LANG|LI:C2C:3//64/r>1e+10", 17.1 },
{ "LANG|LI:C2C:4//53/a<=0.25", 8.06 },
{ "LANG|LI:C2C:4//53/a<=0.75", 9.02 },
{ "LANG|LI:C2C:4//53/a<=0.75n", 19.7 },
{ "LANG|LI:C2C:4//53/a<=1", 16.4 },
{ "LANG|LI:C2C:4//53/a<=1.4", 25.9 },
{ "LANG|LI:C2C:4//53/a<=1.4h", 30.8 },
{ "LANG|LI:C2C:4//53/a<=1.4n", 12.6 },
{ "LANG|LI:C2C:4//53/a<=1e+10", 14.4 },
{ "LANG|LI:C2C:4//53/a<=1h", 26.4 },
{ "LANG|LI:C2C:4//53/a<=1n", 15.2 },
{ "LANG|LI:C2C:4//53/a<=4", 9.19 },
{ "LANG|LI:C2C:4//53/a<=4h", 14.8 },
{ "LANG|LI:C2C:4//53/a<=4n", 10.5 },
{ "LANG|LI:C2C:4//53/a>1e+10", 18.8 },
{ "LANG|LI:C2C:4//53/r<=0.25", 8.93 },
{ "LANG|LI:C2C:4//53/r<=0.75", 11.3 },
{ "LANG|LI:C2C:4//53/r<=0.75n", 289 },
{ "LANG|LI:C2C:4//53/r<=1", 8.51 },
{ "LANG|LI:C2C:4//53/r<=1.4", 8.97 },
{ "LANG|LI:C2C:4//53/r<=1.4n", 211 },
{ "LANG|LI:C2C:4//53/r<=1e+10", 15.6 },
{ "LANG|LI:C2C:4//53/r<=1n", 365 },
{ "LANG|LI:C2C:4//53/r<=4", 7.97 },
{ "LANG|LI:C2C:4//53/r<=4h", 12.2 },
{ "LANG|LI:C2C:4//53/r<=4n", 79.9 },
{ "LANG|LI:C2C:4//53/r>1e+10", 21.8 },
{ "LANG|LI:C2C:4//64/a<=0.25", 9.12 },
{ "LANG|LI:C2C:4//64/a<=0.75", 8.34 },
{ "LANG|LI:C2C:4//64/a<=0.75n", 18.8 },
{ "LANG|LI:C2C:4//64/a<=1", 9.03 },
{ "LANG|LI:C2C:4//64/a<=1.4", 15.6 },
{ "LANG|LI:C2C:4//64/a<=1.4h", 15.8 },
{ "LANG|LI:C2C:4//64/a<=1.4n", 6.8 },
{ "LANG|LI:C2C:4//64/a<=1e+10", 13.6 },
{ "LANG|LI:C2C:4//64/a<=1h", 13 },
{ "LANG|LI:C2C:4//64/a<=1n", 7.81 },
{ "LANG|LI:C2C:4//64/a<=4", 9.59 },
{ "LANG|LI:C2C:4//64/a<=4h", 11.1 },
{ "LANG|LI:C2C:4//64/a<=4n", 6.62 },
{ "LANG|LI:C2C:4//64/a>1e+10", 20.6 },
{ "LANG|LI:C2C:4//64/r<=0.25", 8.79 },
{ "LANG|LI:C2C:4//64/r<=0.75", 13.7 },
{ "LANG|LI:C2C:4//64/r<=0.75n", 17.1 },
{ "LANG|LI:C2C:4//64/r<=1", 13.3 },
{ "LANG|LI:C2C:4//64/r<=1.4", 14.1 },
{ "LANG|LI:C2C:4//64/r<=1.4n", 6.93 },
{ "LANG|LI:C2C:4//64/r<=1e+10", 17 },
{ "LANG|LI:C2C:4//64/r<=1n", 7.23 },
{ "LANG|LI:C2C:4//64/r<=4", 12.8 },
{ "LANG|LI:C2C:4//64/r<=4h", 12.9 },
{ "LANG|LI:C2C:4//64/r<=4n", 7.05 },
{ "LANG|LI:C2C:4//64/r>1e+10", 26.6 },
{ "LANG|LI:C2C:5//53/a<=0.25", 8.39 },
{ "LANG|LI:C2C:5//53/a<=0.75", 8.27 },
{ "LANG|LI:C2C:5//53/a<=0.75n", 10.3 },
{ "LANG|LI:C2C:5//53/a<=1", 8.95 },
{ "LANG|LI:C2C:5//53/a<=1.4", 17.1 },
{ "LANG|LI:C2C:5//53/a<=1.4h", 17.8 },
{ "LANG|LI:C2C:5//53/a<=1.4n", 11.6 },
{ "LANG|LI:C2C:5//53/a<=1e+10", 15.1 },
{ "LANG|LI:C2C:5//53/a<=1h", 7.82 },
{ "LANG|LI:C2C:5//53/a<=1n", 6.99 },
{ "LANG|LI:C2C:5//53/a<=4", 10.9 },
{ "LANG|LI:C2C:5//53/a<=4h", 13.4 },
{ "LANG|LI:C2C:5//53/a<=4n", 8.83 },
{ "LANG|LI:C2C:5//53/a>1e+10", 20.6 },
{ "LANG|LI:C2C:5//53/r<=0.25", 8.23 },
{ "LANG|LI:C2C:5//53/r<=0.75", 8.23 },
{ "LANG|LI:C2C:5//53/r<=0.75n", 9 },
{ "LANG|LI:C2C:5//53/r<=1", 7.88 },
{ "LANG|LI:C2C:5//53/r<=1.4", 13.6 },
{ "LANG|LI:C2C:5//53/r<=1.4n", 7.18 },
{ "LANG|LI:C2C:5//53/r<=1e+10", 18.2 },
{ "LANG|LI:C2C:5//53/r<=1n", 7.18 },
{ "LANG|LI:C2C:5//53/r<=4", 8.3 },
{ "LANG|LI:C2C:5//53/r<=4h", 14.2 },
{ "LANG|LI:C2C:5//53/r<=4n", 8.07 },
{ "LANG|LI:C2C:5//53/r>1e+10", 26.1 },
{ "LANG|LI:C2C:5//64/a<=0.25", 8.96 },
{ "LANG|LI:C2C:5//64/a<=0.75", 8.59 },
{ "LANG|LI:C2C:5//64/a<=0.75n", 9.17 },
{ "LANG|LI:C2C:5//64/a<=1", 9.22 },
{ "LANG|LI:C2C:5//64/a<=1.4", 21.7 },
{ "LANG|LI:C2C:5//64/a<=1.4h", 22.4 },
{ "LANG|LI:C2C:5//64/a<=1.4n", 6.67 },
{ "LANG|LI:C2C:5//64/a<=1e+10", 16.1 },
{ "LANG|LI:C2C:5//64/a<=1h", 13.2 },
{ "LANG|LI:C2C:5//64/a<=1n", 6.72 },
{ "LANG|LI:C2C:5//64/a<=4", 12 },
{ "LANG|LI:C2C:5//64/a<=4h", 15.1 },
{ "LANG|LI:C2C:5//64/a<=4n", 6.61 },
{ "LANG|LI:C2C:5//64/a>1e+10", 22 },
{ "LANG|LI:C2C:5//64/r<=0.25", 9.08 },
{ "LANG|LI:C2C:5//64/r<=0.75", 13.7 },
{ "LANG|LI:C2C:5//64/r<=0.75n", 8.07 },
{ "LANG|LI:C2C:5//64/r<=1", 13.2 },
{ "LANG|LI:C2C:5//64/r<=1.4", 13.7 },
{ "LANG|LI:C2C:5//64/r<=1.4n", 6.99 },
{ "LANG|LI:C2C:5//64/r<=1e+10", 18 },
{ "LANG|LI:C2C:5//64/r<=1n", 6.99 },
{ "LANG|LI:C2C:5//64/r<=4", 12.7 },
{ "LANG|LI:C2C:5//64/r<=4h", 12.5 },
{ "LANG|LI:C2C:5//64/r<=4n", 7.2 },
{ "LANG|LI:C2C:5//64/r>1e+10", 29.2 },
{ "LANG|LI:C2C:6//53/a<=0.25", 8.11 },
{ "LANG|LI:C2C:6//53/a<=0.75", 9.04 },
{ "LANG|LI:C2C:6//53/a<=0.75n", 14.9 },
{ "LANG|LI:C2C:6//53/a<=1", 9.16 },
{ "LANG|LI:C2C:6//53/a<=1.4", 19.4 },
{ "LANG|LI:C2C:6//53/a<=1.4h", 19 },
{ "LANG|LI:C2C:6//53/a<=1.4n", 9.82 },
{ "LANG|LI:C2C:6//53/a<=1e+10", 20 },
{ "LANG|LI:C2C:6//53/a<=1h", 9.38 },
{ "LANG|LI:C2C:6//53/a<=1n", 7.16 },
{ "LANG|LI:C2C:6//53/a<=4", 8.94 },
{ "LANG|LI:C2C:6//53/a<=4h", 12.7 },
{ "LANG|LI:C2C:6//53/a<=4n", 9.99 },
{ "LANG|LI:C2C:6//53/a>1e+10", 26.1 },
{ "LANG|LI:C2C:6//53/r<=0.25", 8.31 },
{ "LANG|LI:C2C:6//53/r<=0.75", 8.55 },
{ "LANG|LI:C2C:6//53/r<=0.75n", 12.7 },
{ "LANG|LI:C2C:6//53/r<=1", 8.37 },
{ "LANG|LI:C2C:6//53/r<=1.4", 15.3 },
{ "LANG|LI:C2C:6//53/r<=1.4n", 7.5 },
{ "LANG|LI:C2C:6//53/r<=1e+10", 20.8 },
{ "LANG|LI:C2C:6//53/r<=1n", 7.77 },
{ "LANG|LI:C2C:6//53/r<=4", 8.94 },
{ "LANG|LI:C2C:6//53/r<=4h", 15 },
{ "LANG|LI:C2C:6//53/r<=4n", 8.25 },
{ "LANG|LI:C2C:6//53/r>1e+10", 30.2 },
{ "LANG|LI:C2C:6//64/a<=0.25", 8.82 },
{ "LANG|LI:C2C:6//64/a<=0.75", 8.6 },
{ "LANG|LI:C2C:6//64/a<=0.75n", 9.31 },
{ "LANG|LI:C2C:6//64/a<=1", 9.39 },
{ "LANG|LI:C2C:6//64/a<=1.4", 24 },
{ "LANG|LI:C2C:6//64/a<=1.4h", 28 },
{ "LANG|LI:C2C:6//64/a<=1.4n", 6.52 },
{ "LANG|LI:C2C:6//64/a<=1e+10", 18.2 },
{ "LANG|LI:C2C:6//64/a<=1h", 13.2 },
{ "LANG|LI:C2C:6//64/a<=1n", 6.57 },
{ "LANG|LI:C2C:6//64/a<=4", 10.4 },
{ "LANG|LI:C2C:6//64/a<=4h", 17.1 },
{ "LANG|LI:C2C:6//64/a<=4n", 6.59 },
{ "LANG|LI:C2C:6//64/a>1e+10", 27.2 },
{ "LANG|LI:C2C:6//64/r<=0.25", 9.11 },
{ "LANG|LI:C2C:6//64/r<=0.75", 13.3 },
{ "LANG|LI:C2C:6//64/r<=0.75n", 8.38 },
{ "LANG|LI:C2C:6//64/r<=1", 13.3 },
{ "LANG|LI:C2C:6//64/r<=1.4", 13.9 },
{ "LANG|LI:C2C:6//64/r<=1.4n", 7 },
{ "LANG|LI:C2C:6//64/r<=1e+10", 22.2 },
{ "LANG|LI:C2C:6//64/r<=1n", 7 },
{ "LANG|LI:C2C:6//64/r<=4", 12.7 },
{ "LANG|LI:C2C:6//64/r<=4h", 16.1 },
{ "LANG|LI:C2C:6//64/r<=4n", 7.2 },
{ "LANG|LI:C2C:6//64/r>1e+10", 38 },
{ "LANG|LI:R2R:2//24/x<=-1", 9.52 },
{ "LANG|LI:R2R:2//24/x<=0", 9.14 },
{ "LANG|LI:R2R:2//24/x<=0.5", 9.35 },
{ "LANG|LI:R2R:2//24/x<=0.6", 12.7 },
{ "LANG|LI:R2R:2//24/x<=0.7", 9.5 },
{ "LANG|LI:R2R:2//24/x<=0.8", 8.16 },
{ "LANG|LI:R2R:2//24/x<=1", 6.41 },
{ "LANG|LI:R2R:2//24/x<=1.25", 7.14 },
{ "LANG|LI:R2R:2//24/x<=1.4", 7.28 },
{ "LANG|LI:R2R:2//24/x<=1.6", 7.24 },
{ "LANG|LI:R2R:2//24/x<=1.8", 7.3 },
{ "LANG|LI:R2R:2//24/x<=2", 7.45 },
{ "LANG|LI:R2R:2//24/x>2", 8.37 },
{ "LANG|LI:R2R:2//53/x<=-1", 24.9 },
{ "LANG|LI:R2R:2//53/x<=0", 24.1 },
{ "LANG|LI:R2R:2//53/x<=0.5", 28.9 },
{ "LANG|LI:R2R:2//53/x<=0.6", 36.8 },
{ "LANG|LI:R2R:2//53/x<=0.7", 12.3 },
{ "LANG|LI:R2R:2//53/x<=0.8", 7.62 },
{ "LANG|LI:R2R:2//53/x<=1", 7.46 },
{ "LANG|LI:R2R:2//53/x<=1.25", 6 },
{ "LANG|LI:R2R:2//53/x<=1.4", 7.08 },
{ "LANG|LI:R2R:2//53/x<=1.6", 7.32 },
{ "LANG|LI:R2R:2//53/x<=1.8", 7.99 },
{ "LANG|LI:R2R:2//53/x<=2", 8.9 },
{ "LANG|LI:R2R:2//53/x>2", 8.63 },
{ "LANG|LI:R2R:2//64/x<=-1", 11.6 },
{ "LANG|LI:R2R:2//64/x<=0", 9.88 },
{ "LANG|LI:R2R:2//64/x<=0.5", 10.6 },
{ "LANG|LI:R2R:2//64/x<=0.6", 16 },
{ "LANG|LI:R2R:2//64/x<=0.7", 8.7 },
{ "LANG|LI:R2R:2//64/x<=0.8", 7.71 },
{ "LANG|LI:R2R:2//64/x<=1", 6.38 },
{ "LANG|LI:R2R:2//64/x<=1.25", 6.9 },
{ "LANG|LI:R2R:2//64/x<=1.4", 7.12 },
{ "LANG|LI:R2R:2//64/x<=1.6", 7.2 },
{ "LANG|LI:R2R:2//64/x<=1.8", 7.17 },
{ "LANG|LI:R2R:2//64/x<=2", 7.5 },
{ "LANG|LI:R2R:2//64/x>2", 9.16 },
{ "LANG|LI:R2R:3//53/x<=-1", 11.2 },
{ "LANG|LI:R2R:3//53/x<=0", 7.99 },
{ "LANG|LI:R2R:3//53/x<=0.5", 22.8 },
{ "LANG|LI:R2R:3//53/x<=0.6", 36.7 },
{ "LANG|LI:R2R:3//53/x<=0.7", 16.3 },
{ "LANG|LI:R2R:3//53/x<=0.8", 7.98 },
{ "LANG|LI:R2R:3//53/x<=1", 6.99 },
{ "LANG|LI:R2R:3//53/x<=1.25", 6.13 },
{ "LANG|LI:R2R:3//53/x<=1.4", 7.33 },
{ "LANG|LI:R2R:3//53/x<=1.6", 7.66 },
{ "LANG|LI:R2R:3//53/x<=1.8", 8.49 },
{ "LANG|LI:R2R:3//53/x<=2", 8.71 },
{ "LANG|LI:R2R:3//53/x>2", 10.4 },
{ "LANG|LI:R2R:4//53/x<=-1", 16.2 },
{ "LANG|LI:R2R:4//53/x<=0", 8.34 },
{ "LANG|LI:R2R:4//53/x<=0.5", 17.1 },
{ "LANG|LI:R2R:4//53/x<=0.6", 63.6 },
{ "LANG|LI:R2R:4//53/x<=0.7", 150 },
{ "LANG|LI:R2R:4//53/x<=0.8", 324 },
{ "LANG|LI:R2R:4//53/x<=1", 5.75 },
{ "LANG|LI:R2R:4//53/x<=1.25", 6.72 },
{ "LANG|LI:R2R:4//53/x<=1.4", 194 },
{ "LANG|LI:R2R:4//53/x<=1.6", 82.2 },
{ "LANG|LI:R2R:4//53/x<=1.8", 22 },
{ "LANG|LI:R2R:4//53/x<=2", 12.7 },
{ "LANG|LI:R2R:4//53/x>2", 15.1 },
{ "LI:C2C:2//24/a<=0.25", 8.44 },
{ "LI:C2C:2//24/a<=0.75", 8.16 },
{ "LI:C2C:2//24/a<=0.75n", 11.8 },
{ "LI:C2C:2//24/a<=1", 8.33 },
{ "LI:C2C:2//24/a<=1.4", 16.2 },
{ "LI:C2C:2//24/a<=1.4h", 18.2 },
{ "LI:C2C:2//24/a<=1.4n", 11.2 },
{ "LI:C2C:2//24/a<=1e+10", 9.97 },
{ "LI:C2C:2//24/a<=1h", 9.02 },
{ "LI:C2C:2//24/a<=1n", 8.61 },
{ "LI:C2C:2//24/a<=4", 8.88 },
{ "LI:C2C:2//24/a<=4h", 11.5 },
{ "LI:C2C:2//24/a<=4n", 9.46 },
{ "LI:C2C:2//24/a>1e+10", 9.88 },
{ "LI:C2C:2//24/r<=0.25", 10.3 },
{ "LI:C2C:2//24/r<=0.75", 9.73 },
{ "LI:C2C:2//24/r<=0.75n", 13.6 },
{ "LI:C2C:2//24/r<=1", 9.57 },
{ "LI:C2C:2//24/r<=1.4", 15.9 },
{ "LI:C2C:2//24/r<=1.4n", 7.15 },
{ "LI:C2C:2//24/r<=1e+10", 8.73 },
{ "LI:C2C:2//24/r<=1n", 7.26 },
{ "LI:C2C:2//24/r<=4", 8.55 },
{ "LI:C2C:2//24/r<=4h", 13.4 },
{ "LI:C2C:2//24/r<=4n", 7.45 },
{ "LI:C2C:2//24/r>1e+10", 9.01 },
{ "LI:C2C:2//53/a<=0.25", 9.32 },
{ "LI:C2C:2//53/a<=0.75", 8.42 },
{ "LI:C2C:2//53/a<=0.75n", 9.55 },
{ "LI:C2C:2//53/a<=1", 8.38 },
{ "LI:C2C:2//53/a<=1.4", 10.4 },
{ "LI:C2C:2//53/a<=1.4h", 12.3 },
{ "LI:C2C:2//53/a<=1.4n", 9.57 },
{ "LI:C2C:2//53/a<=1e+10", 9.25 },
{ "LI:C2C:2//53/a<=1h", 8.44 },
{ "LI:C2C:2//53/a<=1n", 7.78 },
{ "LI:C2C:2//53/a<=4", 8.41 },
{ "LI:C2C:2//53/a<=4h", 8.86 },
{ "LI:C2C:2//53/a<=4n", 9.02 },
{ "LI:C2C:2//53/a>1e+10", 10.3 },
{ "LI:C2C:2//53/r<=0.25", 8.71 },
{ "LI:C2C:2//53/r<=0.75", 18.1 },
{ "LI:C2C:2//53/r<=0.75n", 34.9 },
{ "LI:C2C:2//53/r<=1", 27.9 },
{ "LI:C2C:2//53/r<=1.4", 29 },
{ "LI:C2C:2//53/r<=1.4n", 6.72 },
{ "LI:C2C:2//53/r<=1e+10", 8.97 },
{ "LI:C2C:2//53/r<=1n", 7.27 },
{ "LI:C2C:2//53/r<=4", 10.1 },
{ "LI:C2C:2//53/r<=4h", 13 },
{ "LI:C2C:2//53/r<=4n", 8.74 },
{ "LI:C2C:2//53/r>1e+10", 9.55 },
{ "LI:C2C:2//64/a<=0.25", 8.75 },
{ "LI:C2C:2//64/a<=0.75", 8.1 },
{ "LI:C2C:2//64/a<=0.75n", 10.3 },
{ "LI:C2C:2//64/a<=1", 9.13 },
{ "LI:C2C:2//64/a<=1.4", 11.7 },
{ "LI:C2C:2//64/a<=1.4h", 11.3 },
{ "LI:C2C:2//64/a<=1.4n", 9.49 },
{ "LI:C2C:2//64/a<=1e+10", 8.99 },
{ "LI:C2C:2//64/a<=1h", 8.47 },
{ "LI:C2C:2//64/a<=1n", 7.26 },
{ "LI:C2C:2//64/a<=4", 7.61 },
{ "LI:C2C:2//64/a<=4h", 9.56 },
{ "LI:C2C:2//64/a<=4n", 8.26 },
{ "LI:C2C:2//64/a>1e+10", 9.86 },
{ "LI:C2C:2//64/r<=0.25", 7.96 },
{ "LI:C2C:2//64/r<=0.75", 8.63 },
{ "LI:C2C:2//64/r<=0.75n", 15 },
{ "LI:C2C:2//64/r<=1", 11.1 },
{ "LI:C2C:2//64/r<=1.4", 14.3 },
{ "LI:C2C:2//64/r<=1.4n", 7 },
{ "LI:C2C:2//64/r<=1e+10", 10.5 },
{ "LI:C2C:2//64/r<=1n", 7.28 },
{ "LI:C2C:2//64/r<=4", 8.13 },
{ "LI:C2C:2//64/r<=4h", 7.14 },
{ "LI:C2C:2//64/r<=4n", 7.62 },
{ "LI:C2C:2//64/r>1e+10", 12.2 },
{ "LI:C2C:3//53/a<=0.25", 8.14 },
{ "LI:C2C:3//53/a<=0.75", 8.19 },
{ "LI:C2C:3//53/a<=0.75n", 13.7 },
{ "LI:C2C:3//53/a<=1", 24.1 },
{ "LI:C2C:3//53/a<=1.4", 25.9 },
{ "LI:C2C:3//53/a<=1.4h", 36.5 },
{ "LI:C2C:3//53/a<=1.4n", 25.3 },
{ "LI:C2C:3//53/a<=1e+10", 10.3 },
{ "LI:C2C:3//53/a<=1h", 39.6 },
{ "LI:C2C:3//53/a<=1n", 20.1 },
{ "LI:C2C:3//53/a<=4", 8.96 },
{ "LI:C2C:3//53/a<=4h", 9.56 },
{ "LI:C2C:3//53/a<=4n", 7.63 },
{ "LI:C2C:3//53/a>1e+10", 12.7 },
{ "LI:C2C:3//53/r<=0.25", 8.81 },
{ "LI:C2C:3//53/r<=0.75", 12.3 },
{ "LI:C2C:3//53/r<=0.75n", 39.6 },
{ "LI:C2C:3//53/r<=1", 8.33 },
{ "LI:C2C:3//53/r<=1.4", 8.37 },
{ "LI:C2C:3//53/r<=1.4n", 7.1 },
{ "LI:C2C:3//53/r<=1e+10", 11.6 },
{ "LI:C2C:3//53/r<=1n", 7.88 },
{ "LI:C2C:3//53/r<=4", 7.66 },
{ "LI:C2C:3//53/r<=4h", 7.27 },
{ "LI:C2C:3//53/r<=4n", 8.5 },
{ "LI:C2C:3//53/r>1e+10", 14.3 },
{ "LI:C2C:3//64/a<=0.25", 9.19 },
{ "LI:C2C:3//64/a<=0.75", 9.25 },
{ "LI:C2C:3//64/a<=0.75n", 16.7 },
{ "LI:C2C:3//64/a<=1", 9.06 },
{ "LI:C2C:3//64/a<=1.4", 12.1 },
{ "LI:C2C:3//64/a<=1.4h", 12.5 },
{ "LI:C2C:3//64/a<=1.4n", 7.78 },
{ "LI:C2C:3//64/a<=1e+10", 11.3 },
{ "LI:C2C:3//64/a<=1h", 7.22 },
{ "LI:C2C:3//64/a<=1n", 8.36 },
{ "LI:C2C:3//64/a<=4", 9.03 },
{ "LI:C2C:3//64/a<=4h", 9.83 },
{ "LI:C2C:3//64/a<=4n", 7.13 },
{ "LI:C2C:3//64/a>1e+10", 14 },
{ "LI:C2C:3//64/r<=0.25", 8.87 },
{ "LI:C2C:3//64/r<=0.75", 8.62 },
{ "LI:C2C:3//64/r<=0.75n", 13.1 },
{ "LI:C2C:3//64/r<=1", 8.12 },
{ "LI:C2C:3//64/r<=1.4", 8.04 },
{ "LI:C2C:3//64/r<=1.4n", 6.88 },
{ "LI:C2C:3//64/r<=1e+10", 12.9 },
{ "LI:C2C:3//64/r<=1n", 7.15 },
{ "LI:C2C:3//64/r<=4", 7.71 },
{ "LI:C2C:3//64/r<=4h", 8.28 },
{ "LI:C2C:3//64/r<=4n", 7.11 },
{ "LI:C2C:3//64/r>1e+10", 17.1 },
{ "LI:C2C:4//53/a<=0.25", 8.06 },
{ "LI:C2C:4//53/a<=0.75", 8.98 },
{ "LI:C2C:4//53/a<=0.75n", 19.7 },
{ "LI:C2C:4//53/a<=1", 16.4 },
{ "LI:C2C:4//53/a<=1.4", 25.9 },
{ "LI:C2C:4//53/a<=1.4h", 30.8 },
{ "LI:C2C:4//53/a<=1.4n", 12.6 },
{ "LI:C2C:4//53/a<=1e+10", 14.4 },
{ "LI:C2C:4//53/a<=1h", 26.4 },
{ "LI:C2C:4//53/a<=1n", 15.2 },
{ "LI:C2C:4//53/a<=4", 9.19 },
{ "LI:C2C:4//53/a<=4h", 14.8 },
{ "LI:C2C:4//53/a<=4n", 10.5 },
{ "LI:C2C:4//53/a>1e+10", 18.8 },
{ "LI:C2C:4//53/r<=0.25", 8.93 },
{ "LI:C2C:4//53/r<=0.75", 11.3 },
{ "LI:C2C:4//53/r<=0.75n", 289 },
{ "LI:C2C:4//53/r<=1", 8.51 },
{ "LI:C2C:4//53/r<=1.4", 8.97 },
{ "LI:C2C:4//53/r<=1.4n", 211 },
{ "LI:C2C:4//53/r<=1e+10", 15.6 },
{ "LI:C2C:4//53/r<=1n", 365 },
{ "LI:C2C:4//53/r<=4", 7.97 },
{ "LI:C2C:4//53/r<=4h", 7.53 },
{ "LI:C2C:4//53/r<=4n", 79.9 },
{ "LI:C2C:4//53/r>1e+10", 21.8 },
{ "LI:C2C:4//64/a<=0.25", 9.12 },
{ "LI:C2C:4//64/a<=0.75", 8.34 },
{ "LI:C2C:4//64/a<=0.75n", 18.8 },
{ "LI:C2C:4//64/a<=1", 9.03 },
{ "LI:C2C:4//64/a<=1.4", 15.6 },
{ "LI:C2C:4//64/a<=1.4h", 15.8 },
{ "LI:C2C:4//64/a<=1.4n", 6.8 },
{ "LI:C2C:4//64/a<=1e+10", 13.6 },
{ "LI:C2C:4//64/a<=1h", 7.29 },
{ "LI:C2C:4//64/a<=1n", 7.81 },
{ "LI:C2C:4//64/a<=4", 9.59 },
{ "LI:C2C:4//64/a<=4h", 11.1 },
{ "LI:C2C:4//64/a<=4n", 6.62 },
{ "LI:C2C:4//64/a>1e+10", 20.6 },
{ "LI:C2C:4//64/r<=0.25", 8.79 },
{ "LI:C2C:4//64/r<=0.75", 8.71 },
{ "LI:C2C:4//64/r<=0.75n", 17.1 },
{ "LI:C2C:4//64/r<=1", 7.85 },
{ "LI:C2C:4//64/r<=1.4", 14.1 },
{ "LI:C2C:4//64/r<=1.4n", 6.93 },
{ "LI:C2C:4//64/r<=1e+10", 17 },
{ "LI:C2C:4//64/r<=1n", 7.23 },
{ "LI:C2C:4//64/r<=4", 12.8 },
{ "LI:C2C:4//64/r<=4h", 9.01 },
{ "LI:C2C:4//64/r<=4n", 7.05 },
{ "LI:C2C:4//64/r>1e+10", 26.6 },
{ "LI:C2C:5//53/a<=0.25", 8.39 },
{ "LI:C2C:5//53/a<=0.75", 8.27 },
{ "LI:C2C:5//53/a<=0.75n", 10.3 },
{ "LI:C2C:5//53/a<=1", 8.95 },
{ "LI:C2C:5//53/a<=1.4", 17.1 },
{ "LI:C2C:5//53/a<=1.4h", 17.8 },
{ "LI:C2C:5//53/a<=1.4n", 11.6 },
{ "LI:C2C:5//53/a<=1e+10", 15.1 },
{ "LI:C2C:5//53/a<=1h", 7.82 },
{ "LI:C2C:5//53/a<=1n", 6.99 },
{ "LI:C2C:5//53/a<=4", 9.68 },
{ "LI:C2C:5//53/a<=4h", 13.4 },
{ "LI:C2C:5//53/a<=4n", 8.83 },
{ "LI:C2C:5//53/a>1e+10", 20.6 },
{ "LI:C2C:5//53/r<=0.25", 8.23 },
{ "LI:C2C:5//53/r<=0.75", 8.23 },
{ "LI:C2C:5//53/r<=0.75n", 9 },
{ "LI:C2C:5//53/r<=1", 7.88 },
{ "LI:C2C:5//53/r<=1.4", 8.02 },
{ "LI:C2C:5//53/r<=1.4n", 7.18 },
{ "LI:C2C:5//53/r<=1e+10", 18.2 },
{ "LI:C2C:5//53/r<=1n", 7.18 },
{ "LI:C2C:5//53/r<=4", 8.3 },
{ "LI:C2C:5//53/r<=4h", 12.2 },
{ "LI:C2C:5//53/r<=4n", 8.07 },
{ "LI:C2C:5//53/r>1e+10", 26.1 },
{ "LI:C2C:5//64/a<=0.25", 8.96 },
{ "LI:C2C:5//64/a<=0.75", 8.59 },
{ "LI:C2C:5//64/a<=0.75n", 9.17 },
{ "LI:C2C:5//64/a<=1", 9.22 },
{ "LI:C2C:5//64/a<=1.4", 21.7 },
{ "LI:C2C:5//64/a<=1.4h", 22.4 },
{ "LI:C2C:5//64/a<=1.4n", 6.67 },
{ "LI:C2C:5//64/a<=1e+10", 16.1 },
{ "LI:C2C:5//64/a<=1h", 7.4 },
{ "LI:C2C:5//64/a<=1n", 6.72 },
{ "LI:C2C:5//64/a<=4", 12 },
{ "LI:C2C:5//64/a<=4h", 15.1 },
{ "LI:C2C:5//64/a<=4n", 6.61 },
{ "LI:C2C:5//64/a>1e+10", 22 },
{ "LI:C2C:5//64/r<=0.25", 9.08 },
{ "LI:C2C:5//64/r<=0.75", 8.88 },
{ "LI:C2C:5//64/r<=0.75n", 8.07 },
{ "LI:C2C:5//64/r<=1", 7.82 },
{ "LI:C2C:5//64/r<=1.4", 8.28 },
{ "LI:C2C:5//64/r<=1.4n", 6.99 },
{ "LI:C2C:5//64/r<=1e+10", 18 },
{ "LI:C2C:5//64/r<=1n", 6.99 },
{ "LI:C2C:5//64/r<=4", 8.7 },
{ "LI:C2C:5//64/r<=4h", 9.95 },
{ "LI:C2C:5//64/r<=4n", 7.2 },
{ "LI:C2C:5//64/r>1e+10", 29.2 },
{ "LI:C2C:6//53/a<=0.25", 8.11 },
{ "LI:C2C:6//53/a<=0.75", 9.04 },
{ "LI:C2C:6//53/a<=0.75n", 14.9 },
{ "LI:C2C:6//53/a<=1", 9.16 },
{ "LI:C2C:6//53/a<=1.4", 19.4 },
{ "LI:C2C:6//53/a<=1.4h", 19 },
{ "LI:C2C:6//53/a<=1.4n", 9.82 },
{ "LI:C2C:6//53/a<=1e+10", 20 },
{ "LI:C2C:6//53/a<=1h", 9.38 },
{ "LI:C2C:6//53/a<=1n", 7.16 },
{ "LI:C2C:6//53/a<=4", 8.55 },
{ "LI:C2C:6//53/a<=4h", 12.7 },
{ "LI:C2C:6//53/a<=4n", 9.81 },
{ "LI:C2C:6//53/a>1e+10", 26.1 },
{ "LI:C2C:6//53/r<=0.25", 8.31 },
{ "LI:C2C:6//53/r<=0.75", 8.55 },
{ "LI:C2C:6//53/r<=0.75n", 12.7 },
{ "LI:C2C:6//53/r<=1", 8.37 },
{ "LI:C2C:6//53/r<=1.4", 10.8 },
{ "LI:C2C:6//53/r<=1.4n", 7.5 },
{ "LI:C2C:6//53/r<=1e+10", 20.8 },
{ "LI:C2C:6//53/r<=1n", 7.77 },
{ "LI:C2C:6//53/r<=4", 8.81 },
{ "LI:C2C:6//53/r<=4h", 12.4 },
{ "LI:C2C:6//53/r<=4n", 8.25 },
{ "LI:C2C:6//53/r>1e+10", 30.2 },
{ "LI:C2C:6//64/a<=0.25", 8.82 },
{ "LI:C2C:6//64/a<=0.75", 8.6 },
{ "LI:C2C:6//64/a<=0.75n", 9.31 },
{ "LI:C2C:6//64/a<=1", 9.39 },
{ "LI:C2C:6//64/a<=1.4", 24 },
{ "LI:C2C:6//64/a<=1.4h", 28 },
{ "LI:C2C:6//64/a<=1.4n", 6.52 },
{ "LI:C2C:6//64/a<=1e+10", 18.2 },
{ "LI:C2C:6//64/a<=1h", 7.45 },
{ "LI:C2C:6//64/a<=1n", 6.57 },
{ "LI:C2C:6//64/a<=4", 10.4 },
{ "LI:C2C:6//64/a<=4h", 17.1 },
{ "LI:C2C:6//64/a<=4n", 6.59 },
{ "LI:C2C:6//64/a>1e+10", 27.2 },
{ "LI:C2C:6//64/r<=0.25", 9.11 },
{ "LI:C2C:6//64/r<=0.75", 8.99 },
{ "LI:C2C:6//64/r<=0.75n", 8.38 },
{ "LI:C2C:6//64/r<=1", 7.92 },
{ "LI:C2C:6//64/r<=1.4", 13.7 },
{ "LI:C2C:6//64/r<=1.4n", 7 },
{ "LI:C2C:6//64/r<=1e+10", 22.2 },
{ "LI:C2C:6//64/r<=1n", 7 },
{ "LI:C2C:6//64/r<=4", 11.9 },
{ "LI:C2C:6//64/r<=4h", 16.1 },
{ "LI:C2C:6//64/r<=4n", 7.2 },
{ "LI:C2C:6//64/r>1e+10", 38 },
{ "LI:NC2C:0/-1/53/m<=1000a<=0.3", 39.7 },
{ "LI:NC2C:0/-1/53/m<=1000a<=0.6", 6 },
{ "LI:NC2C:0/-1/53/m<=1000a<=1", 6 },
{ "LI:NC2C:0/-1/53/m<=1000a<=1.7", 6 },
{ "LI:NC2C:0/-1/53/m<=1000a<=4", 6 },
{ "LI:NC2C:0/-1/53/m<=1000a>4", 29 },
{ "LI:NC2C:0/-1/53/m<=10a<=0.3", 18.8 },
{ "LI:NC2C:0/-1/53/m<=10a<=0.6", 14.1 },
{ "LI:NC2C:0/-1/53/m<=10a<=1", 15.7 },
{ "LI:NC2C:0/-1/53/m<=10a<=1.7", 14.3 },
{ "LI:NC2C:0/-1/53/m<=10a<=4", 15.7 },
{ "LI:NC2C:0/-1/53/m<=10a>4", 26.8 },
{ "LI:NC2C:0/-1/53/m<=120a<=0.3", 74.6 },
{ "LI:NC2C:0/-1/53/m<=120a<=0.6", 13.8 },
{ "LI:NC2C:0/-1/53/m<=120a<=1", 14.3 },
{ "LI:NC2C:0/-1/53/m<=120a<=1.7", 12.8 },
{ "LI:NC2C:0/-1/53/m<=120a<=4", 14.1 },
{ "LI:NC2C:0/-1/53/m<=120a>4", 121 },
{ "LI:NC2C:0/-1/53/m<=171a<=0.3", 123 },
{ "LI:NC2C:0/-1/53/m<=171a<=0.6", 11.9 },
{ "LI:NC2C:0/-1/53/m<=171a<=1", 13.7 },
{ "LI:NC2C:0/-1/53/m<=171a<=1.7", 13.7 },
{ "LI:NC2C:0/-1/53/m<=171a<=4", 13.2 },
{ "LI:NC2C:0/-1/53/m<=171a>4", 149 },
{ "LI:NC2C:0/-1/53/m<=1a<=0.3", 8.18 },
{ "LI:NC2C:0/-1/53/m<=1a<=0.6", 7.88 },
{ "LI:NC2C:0/-1/53/m<=1a<=1", 8.44 },
{ "LI:NC2C:0/-1/53/m<=1a<=1.7", 8.8 },
{ "LI:NC2C:0/-1/53/m<=1a<=4", 7.84 },
{ "LI:NC2C:0/-1/53/m<=1a>4", 7.68 },
{ "LI:NC2C:0/-1/53/m<=20a<=0.3", 31.9 },
{ "LI:NC2C:0/-1/53/m<=20a<=0.6", 16.7 },
{ "LI:NC2C:0/-1/53/m<=20a<=1", 13.3 },
{ "LI:NC2C:0/-1/53/m<=20a<=1.7", 12.1 },
{ "LI:NC2C:0/-1/53/m<=20a<=4", 18 },
{ "LI:NC2C:0/-1/53/m<=20a>4", 32.1 },
{ "LI:NC2C:0/-1/53/m<=2a<=0.3", 9.28 },
{ "LI:NC2C:0/-1/53/m<=2a<=0.6", 12.4 },
{ "LI:NC2C:0/-1/53/m<=2a<=1", 16.7 },
{ "LI:NC2C:0/-1/53/m<=2a<=1.7", 16.9 },
{ "LI:NC2C:0/-1/53/m<=2a<=4", 11.4 },
{ "LI:NC2C:0/-1/53/m<=2a>4", 12.1 },
{ "LI:NC2C:0/-1/53/m<=300a<=0.3", 220 },
{ "LI:NC2C:0/-1/53/m<=300a<=0.6", 11.5 },
{ "LI:NC2C:0/-1/53/m<=300a<=1", 11.2 },
{ "LI:NC2C:0/-1/53/m<=300a<=1.7", 11.2 },
{ "LI:NC2C:0/-1/53/m<=300a<=4", 19 },
{ "LI:NC2C:0/-1/53/m<=300a>4", 176 },
{ "LI:NC2C:0/-1/53/m<=40a<=0.3", 44.3 },
{ "LI:NC2C:0/-1/53/m<=40a<=0.6", 18.9 },
{ "LI:NC2C:0/-1/53/m<=40a<=1", 12.7 },
{ "LI:NC2C:0/-1/53/m<=40a<=1.7", 12.7 },
{ "LI:NC2C:0/-1/53/m<=40a<=4", 13.4 },
{ "LI:NC2C:0/-1/53/m<=40a>4", 35.1 },
{ "LI:NC2C:0/-1/53/m<=5a<=0.3", 21.8 },
{ "LI:NC2C:0/-1/53/m<=5a<=0.6", 17.2 },
{ "LI:NC2C:0/-1/53/m<=5a<=1", 17.3 },
{ "LI:NC2C:0/-1/53/m<=5a<=1.7", 13.2 },
{ "LI:NC2C:0/-1/53/m<=5a<=4", 16.3 },
{ "LI:NC2C:0/-1/53/m<=5a>4", 20.9 },
{ "LI:NC2C:0/-1/53/m<=600a<=0.3", 73.8 },
{ "LI:NC2C:0/-1/53/m<=600a<=0.6", 6 },
{ "LI:NC2C:0/-1/53/m<=600a<=1", 6 },
{ "LI:NC2C:0/-1/53/m<=600a<=1.7", 6 },
{ "LI:NC2C:0/-1/53/m<=600a<=4", 6 },
{ "LI:NC2C:0/-1/53/m<=600a>4", 107 },
{ "LI:NC2C:0/-1/53/m<=80a<=0.3", 63.2 },
{ "LI:NC2C:0/-1/53/m<=80a<=0.6", 14.2 },
{ "LI:NC2C:0/-1/53/m<=80a<=1", 12.2 },
{ "LI:NC2C:0/-1/53/m<=80a<=1.7", 12.8 },
{ "LI:NC2C:0/-1/53/m<=80a<=4", 11.1 },
{ "LI:NC2C:0/-1/53/m<=80a>4", 67 },
{ "LI:NC2C:0/-1/53/m>1000a<=0.3", 21.9 },
{ "LI:NC2C:0/-1/53/m>1000a<=0.6", 6 },
{ "LI:NC2C:0/-1/53/m>1000a<=1", 6 },
{ "LI:NC2C:0/-1/53/m>1000a<=1.7", 6 },
{ "LI:NC2C:0/-1/53/m>1000a<=4", 6 },
{ "LI:NC2C:0/-1/53/m>1000a>4", 10.6 },
{ "LI:NC2C:0/-29/53/a<=0.25", 7.87 },
{ "LI:NC2C:0/-29/53/a<=0.75", 11.9 },
{ "LI:NC2C:0/-29/53/a<=0.75n", 13.2 },
{ "LI:NC2C:0/-29/53/a<=1", 44.4 },
{ "LI:NC2C:0/-29/53/a<=1.4", 36.8 },
{ "LI:NC2C:0/-29/53/a<=1.4h", 11.3 },
{ "LI:NC2C:0/-29/53/a<=1.4n", 22.8 },
{ "LI:NC2C:0/-29/53/a<=1e+10", 8.41 },
{ "LI:NC2C:0/-29/53/a<=1h", 8.87 },
{ "LI:NC2C:0/-29/53/a<=1n", 9.5 },
{ "LI:NC2C:0/-29/53/a<=4", 13.9 },
{ "LI:NC2C:0/-29/53/a<=4h", 15.9 },
{ "LI:NC2C:0/-29/53/a<=4n", 28.9 },
{ "LI:NC2C:0/-29/53/a>1e+10", 7.87 },
{ "LI:NC2C:0/-29/53/r<=0.25", 7.72 },
{ "LI:NC2C:0/-29/53/r<=0.75", 10.1 },
{ "LI:NC2C:0/-29/53/r<=0.75n", 12.9 },
{ "LI:NC2C:0/-29/53/r<=1", 45.4 },
{ "LI:NC2C:0/-29/53/r<=1.4", 34.7 },
{ "LI:NC2C:0/-29/53/r<=1.4n", 19.7 },
{ "LI:NC2C:0/-29/53/r<=1e+10", 8.62 },
{ "LI:NC2C:0/-29/53/r<=1n", 8.86 },
{ "LI:NC2C:0/-29/53/r<=4", 9.3 },
{ "LI:NC2C:0/-29/53/r<=4h", 16.3 },
{ "LI:NC2C:0/-29/53/r<=4n", 30.6 },
{ "LI:NC2C:0/-29/53/r>1e+10", 7.69 },
{ "LI:NC2C:0/0/53/a<=0.25", 7.55 },
{ "LI:NC2C:0/0/53/a<=0.75", 7.62 },
{ "LI:NC2C:0/0/53/a<=0.75n", 7.23 },
{ "LI:NC2C:0/0/53/a<=1", 7.49 },
{ "LI:NC2C:0/0/53/a<=1.4", 8.2 },
{ "LI:NC2C:0/0/53/a<=1.4h", 12.9 },
{ "LI:NC2C:0/0/53/a<=1.4n", 6.87 },
{ "LI:NC2C:0/0/53/a<=1e+10", 8.52 },
{ "LI:NC2C:0/0/53/a<=1h", 12.8 },
{ "LI:NC2C:0/0/53/a<=1n", 7.13 },
{ "LI:NC2C:0/0/53/a<=4", 8.01 },
{ "LI:NC2C:0/0/53/a<=4h", 8.1 },
{ "LI:NC2C:0/0/53/a<=4n", 7.29 },
{ "LI:NC2C:0/0/53/a>1e+10", 8.39 },
{ "LI:NC2C:0/0/53/r<=0.25", 12.8 },
{ "LI:NC2C:0/0/53/r<=0.75", 12.8 },
{ "LI:NC2C:0/0/53/r<=0.75n", 12.6 },
{ "LI:NC2C:0/0/53/r<=1", 12.7 },
{ "LI:NC2C:0/0/53/r<=1.4", 13.3 },
{ "LI:NC2C:0/0/53/r<=1.4n", 12.2 },
{ "LI:NC2C:0/0/53/r<=1e+10", 13.1 },
{ "LI:NC2C:0/0/53/r<=1n", 12.1 },
{ "LI:NC2C:0/0/53/r<=4", 13.2 },
{ "LI:NC2C:0/0/53/r<=4h", 12.5 },
{ "LI:NC2C:0/0/53/r<=4n", 12.5 },
{ "LI:NC2C:0/0/53/r>1e+10", 13.5 },
{ "LI:NC2C:0/1/53/a<=0.25", 8.23 },
{ "LI:NC2C:0/1/53/a<=0.75", 7.85 },
{ "LI:NC2C:0/1/53/a<=0.75n", 7.47 },
{ "LI:NC2C:0/1/53/a<=1", 7.81 },
{ "LI:NC2C:0/1/53/a<=1.4", 8.37 },
{ "LI:NC2C:0/1/53/a<=1.4h", 12.5 },
{ "LI:NC2C:0/1/53/a<=1.4n", 6.73 },
{ "LI:NC2C:0/1/53/a<=1e+10", 8.1 },
{ "LI:NC2C:0/1/53/a<=1h", 12.5 },
{ "LI:NC2C:0/1/53/a<=1n", 7.29 },
{ "LI:NC2C:0/1/53/a<=4", 8.25 },
{ "LI:NC2C:0/1/53/a<=4h", 6.8 },
{ "LI:NC2C:0/1/53/a<=4n", 6.57 },
{ "LI:NC2C:0/1/53/a>1e+10", 8.31 },
{ "LI:NC2C:0/1/53/r<=0.25", 13.8 },
{ "LI:NC2C:0/1/53/r<=0.75", 13.4 },
{ "LI:NC2C:0/1/53/r<=0.75n", 13.3 },
{ "LI:NC2C:0/1/53/r<=1", 13 },
{ "LI:NC2C:0/1/53/r<=1.4", 13.1 },
{ "LI:NC2C:0/1/53/r<=1.4n", 12.2 },
{ "LI:NC2C:0/1/53/r<=1e+10", 13.3 },
{ "LI:NC2C:0/1/53/r<=1n", 12.2 },
{ "LI:NC2C:0/1/53/r<=4", 13.7 },
{ "LI:NC2C:0/1/53/r<=4h", 12.3 },
{ "LI:NC2C:0/1/53/r<=4n", 12.2 },
{ "LI:NC2C:0/1/53/r>1e+10", 14.5 },
{ "LI:NC2C:0/2/53/a<=0.25", 9.96 },
{ "LI:NC2C:0/2/53/a<=0.75", 8.42 },
{ "LI:NC2C:0/2/53/a<=0.75n", 10.6 },
{ "LI:NC2C:0/2/53/a<=1", 8.38 },
{ "LI:NC2C:0/2/53/a<=1.4", 12.4 },
{ "LI:NC2C:0/2/53/a<=1.4h", 16.3 },
{ "LI:NC2C:0/2/53/a<=1.4n", 10.7 },
{ "LI:NC2C:0/2/53/a<=1e+10", 12.8 },
{ "LI:NC2C:0/2/53/a<=1h", 14.4 },
{ "LI:NC2C:0/2/53/a<=1n", 7.78 },
{ "LI:NC2C:0/2/53/a<=4", 8.41 },
{ "LI:NC2C:0/2/53/a<=4h", 9.13 },
{ "LI:NC2C:0/2/53/a<=4n", 9.07 },
{ "LI:NC2C:0/2/53/a>1e+10", 12.4 },
{ "LI:NC2C:0/2/53/r<=0.25", 14.7 },
{ "LI:NC2C:0/2/53/r<=0.75", 24.1 },
{ "LI:NC2C:0/2/53/r<=0.75n", 46.6 },
{ "LI:NC2C:0/2/53/r<=1", 37.2 },
{ "LI:NC2C:0/2/53/r<=1.4", 38.6 },
{ "LI:NC2C:0/2/53/r<=1.4n", 12.7 },
{ "LI:NC2C:0/2/53/r<=1e+10", 15.8 },
{ "LI:NC2C:0/2/53/r<=1n", 13.3 },
{ "LI:NC2C:0/2/53/r<=4", 15.4 },
{ "LI:NC2C:0/2/53/r<=4h", 13 },
{ "LI:NC2C:0/2/53/r<=4n", 14.7 },
{ "LI:NC2C:0/2/53/r>1e+10", 15.2 },
{ "LI:NC2C:0/200+/53/a<=0.25", 2 },
{ "LI:NC2C:0/200+/53/a<=0.75", 2 },
{ "LI:NC2C:0/200+/53/a<=0.75n", 2 },
{ "LI:NC2C:0/200+/53/a<=1", 28.7 },
{ "LI:NC2C:0/200+/53/a<=1.4", 23.1 },
{ "LI:NC2C:0/200+/53/a<=1.4h", 12.5 },
{ "LI:NC2C:0/200+/53/a<=1.4n", 14.1 },
{ "LI:NC2C:0/200+/53/a<=1e+10", 9.01 },
{ "LI:NC2C:0/200+/53/a<=1h", 8.68 },
{ "LI:NC2C:0/200+/53/a<=1n", 9.27 },
{ "LI:NC2C:0/200+/53/a<=4", 14.4 },
{ "LI:NC2C:0/200+/53/a<=4h", 13.7 },
{ "LI:NC2C:0/200+/53/a<=4n", 19.5 },
{ "LI:NC2C:0/200+/53/a>1e+10", 7.87 },
{ "LI:NC2C:0/200+/53/r<=0.25", 6 },
{ "LI:NC2C:0/200+/53/r<=0.75", 6 },
{ "LI:NC2C:0/200+/53/r<=0.75n", 6 },
{ "LI:NC2C:0/200+/53/r<=1", 38 },
{ "LI:NC2C:0/200+/53/r<=1.4", 32.2 },
{ "LI:NC2C:0/200+/53/r<=1.4n", 8.41 },
{ "LI:NC2C:0/200+/53/r<=1e+10", 8.07 },
{ "LI:NC2C:0/200+/53/r<=1n", 7.95 },
{ "LI:NC2C:0/200+/53/r<=4", 9.77 },
{ "LI:NC2C:0/200+/53/r<=4h", 14.8 },
{ "LI:NC2C:0/200+/53/r<=4n", 19.3 },
{ "LI:NC2C:0/200+/53/r>1e+10", 7.51 },
{ "LI:NC2C:0/3/53/a<=0.25", 9.42 },
{ "LI:NC2C:0/3/53/a<=0.75", 9.56 },
{ "LI:NC2C:0/3/53/a<=0.75n", 16.5 },
{ "LI:NC2C:0/3/53/a<=1", 28.9 },
{ "LI:NC2C:0/3/53/a<=1.4", 31.1 },
{ "LI:NC2C:0/3/53/a<=1.4h", 58.4 },
{ "LI:NC2C:0/3/53/a<=1.4n", 37.9 },
{ "LI:NC2C:0/3/53/a<=1e+10", 15.5 },
{ "LI:NC2C:0/3/53/a<=1h", 52.8 },
{ "LI:NC2C:0/3/53/a<=1n", 30.2 },
{ "LI:NC2C:0/3/53/a<=4", 11.9 },
{ "LI:NC2C:0/3/53/a<=4h", 10.7 },
{ "LI:NC2C:0/3/53/a<=4n", 8.63 },
{ "LI:NC2C:0/3/53/a>1e+10", 19.1 },
{ "LI:NC2C:0/3/53/r<=0.25", 14.8 },
{ "LI:NC2C:0/3/53/r<=0.75", 16.4 },
{ "LI:NC2C:0/3/53/r<=0.75n", 52.8 },
{ "LI:NC2C:0/3/53/r<=1", 14.3 },
{ "LI:NC2C:0/3/53/r<=1.4", 14.4 },
{ "LI:NC2C:0/3/53/r<=1.4n", 13.1 },
{ "LI:NC2C:0/3/53/r<=1e+10", 15.9 },
{ "LI:NC2C:0/3/53/r<=1n", 13.9 },
{ "LI:NC2C:0/3/53/r<=4", 13.7 },
{ "LI:NC2C:0/3/53/r<=4h", 13.3 },
{ "LI:NC2C:0/3/53/r<=4n", 14.5 },
{ "LI:NC2C:0/3/53/r>1e+10", 19.1 },
{ "LI:NC2C:0/30-199/53/a<=0.25", 6.56 },
{ "LI:NC2C:0/30-199/53/a<=0.75", 6.97 },
{ "LI:NC2C:0/30-199/53/a<=0.75n", 6.97 },
{ "LI:NC2C:0/30-199/53/a<=1", 36.3 },
{ "LI:NC2C:0/30-199/53/a<=1.4", 29.2 },
{ "LI:NC2C:0/30-199/53/a<=1.4h", 12.8 },
{ "LI:NC2C:0/30-199/53/a<=1.4n", 25.5 },
{ "LI:NC2C:0/30-199/53/a<=1e+10", 9.17 },
{ "LI:NC2C:0/30-199/53/a<=1h", 8.87 },
{ "LI:NC2C:0/30-199/53/a<=1n", 9.33 },
{ "LI:NC2C:0/30-199/53/a<=4", 13.5 },
{ "LI:NC2C:0/30-199/53/a<=4h", 14.4 },
{ "LI:NC2C:0/30-199/53/a<=4n", 23.3 },
{ "LI:NC2C:0/30-199/53/a>1e+10", 7.87 },
{ "LI:NC2C:0/30-199/53/r<=0.25", 6.56 },
{ "LI:NC2C:0/30-199/53/r<=0.75", 6.87 },
{ "LI:NC2C:0/30-199/53/r<=0.75n", 6.97 },
{ "LI:NC2C:0/30-199/53/r<=1", 39.4 },
{ "LI:NC2C:0/30-199/53/r<=1.4", 40.2 },
{ "LI:NC2C:0/30-199/53/r<=1.4n", 17 },
{ "LI:NC2C:0/30-199/53/r<=1e+10", 8.44 },
{ "LI:NC2C:0/30-199/53/r<=1n", 8.43 },
{ "LI:NC2C:0/30-199/53/r<=4", 9.1 },
{ "LI:NC2C:0/30-199/53/r<=4h", 16.3 },
{ "LI:NC2C:0/30-199/53/r<=4n", 25 },
{ "LI:NC2C:0/30-199/53/r>1e+10", 7.37 },
{ "LI:NC2C:0/4/53/a<=0.25", 9.18 },
{ "LI:NC2C:0/4/53/a<=0.75", 11.9 },
{ "LI:NC2C:0/4/53/a<=0.75n", 23.6 },
{ "LI:NC2C:0/4/53/a<=1", 19.6 },
{ "LI:NC2C:0/4/53/a<=1.4", 31 },
{ "LI:NC2C:0/4/53/a<=1.4h", 49.3 },
{ "LI:NC2C:0/4/53/a<=1.4n", 18.9 },
{ "LI:NC2C:0/4/53/a<=1e+10", 21.6 },
{ "LI:NC2C:0/4/53/a<=1h", 35.2 },
{ "LI:NC2C:0/4/53/a<=1n", 22.8 },
{ "LI:NC2C:0/4/53/a<=4", 12.6 },
{ "LI:NC2C:0/4/53/a<=4h", 17.7 },
{ "LI:NC2C:0/4/53/a<=4n", 15.8 },
{ "LI:NC2C:0/4/53/a>1e+10", 28.2 },
{ "LI:NC2C:0/4/53/r<=0.25", 14.9 },
{ "LI:NC2C:0/4/53/r<=0.75", 15.8 },
{ "LI:NC2C:0/4/53/r<=0.75n", 385 },
{ "LI:NC2C:0/4/53/r<=1", 14.5 },
{ "LI:NC2C:0/4/53/r<=1.4", 15 },
{ "LI:NC2C:0/4/53/r<=1.4n", 281 },
{ "LI:NC2C:0/4/53/r<=1e+10", 20.8 },
{ "LI:NC2C:0/4/53/r<=1n", 486 },
{ "LI:NC2C:0/4/53/r<=4", 14 },
{ "LI:NC2C:0/4/53/r<=4h", 13.5 },
{ "LI:NC2C:0/4/53/r<=4n", 107 },
{ "LI:NC2C:0/4/53/r>1e+10", 29 },
{ "LI:NC2C:0/5/53/a<=0.25", 10.2 },
{ "LI:NC2C:0/5/53/a<=0.75", 9.82 },
{ "LI:NC2C:0/5/53/a<=0.75n", 12.4 },
{ "LI:NC2C:0/5/53/a<=1", 9.44 },
{ "LI:NC2C:0/5/53/a<=1.4", 20.6 },
{ "LI:NC2C:0/5/53/a<=1.4h", 28.5 },
{ "LI:NC2C:0/5/53/a<=1.4n", 17.4 },
{ "LI:NC2C:0/5/53/a<=1e+10", 22.7 },
{ "LI:NC2C:0/5/53/a<=1h", 13.8 },
{ "LI:NC2C:0/5/53/a<=1n", 7.99 },
{ "LI:NC2C:0/5/53/a<=4", 14.1 },
{ "LI:NC2C:0/5/53/a<=4h", 16.1 },
{ "LI:NC2C:0/5/53/a<=4n", 11.5 },
{ "LI:NC2C:0/5/53/a>1e+10", 31 },
{ "LI:NC2C:0/5/53/r<=0.25", 14.2 },
{ "LI:NC2C:0/5/53/r<=0.75", 14.2 },
{ "LI:NC2C:0/5/53/r<=0.75n", 15 },
{ "LI:NC2C:0/5/53/r<=1", 13.9 },
{ "LI:NC2C:0/5/53/r<=1.4", 14 },
{ "LI:NC2C:0/5/53/r<=1.4n", 13.2 },
{ "LI:NC2C:0/5/53/r<=1e+10", 24.3 },
{ "LI:NC2C:0/5/53/r<=1n", 13.2 },
{ "LI:NC2C:0/5/53/r<=4", 14.3 },
{ "LI:NC2C:0/5/53/r<=4h", 16.2 },
{ "LI:NC2C:0/5/53/r<=4n", 14.1 },
{ "LI:NC2C:0/5/53/r>1e+10", 34.8 },
{ "LI:NC2C:0/6/53/a<=0.25", 9.34 },
{ "LI:NC2C:0/6/53/a<=0.75", 12.1 },
{ "LI:NC2C:0/6/53/a<=0.75n", 17.9 },
{ "LI:NC2C:0/6/53/a<=1", 9.48 },
{ "LI:NC2C:0/6/53/a<=1.4", 23.2 },
{ "LI:NC2C:0/6/53/a<=1.4h", 30.5 },
{ "LI:NC2C:0/6/53/a<=1.4n", 14.5 },
{ "LI:NC2C:0/6/53/a<=1e+10", 29.9 },
{ "LI:NC2C:0/6/53/a<=1h", 15.1 },
{ "LI:NC2C:0/6/53/a<=1n", 8.16 },
{ "LI:NC2C:0/6/53/a<=4", 10.6 },
{ "LI:NC2C:0/6/53/a<=4h", 15.3 },
{ "LI:NC2C:0/6/53/a<=4n", 14.4 },
{ "LI:NC2C:0/6/53/a>1e+10", 39.1 },
{ "LI:NC2C:0/6/53/r<=0.25", 14.3 },
{ "LI:NC2C:0/6/53/r<=0.75", 14.5 },
{ "LI:NC2C:0/6/53/r<=0.75n", 16.9 },
{ "LI:NC2C:0/6/53/r<=1", 14.4 },
{ "LI:NC2C:0/6/53/r<=1.4", 15.6 },
{ "LI:NC2C:0/6/53/r<=1.4n", 13.5 },
{ "LI:NC2C:0/6/53/r<=1e+10", 27.7 },
{ "LI:NC2C:0/6/53/r<=1n", 13.8 },
{ "LI:NC2C:0/6/53/r<=4", 14.8 },
{ "LI:NC2C:0/6/53/r<=4h", 16.5 },
{ "LI:NC2C:0/6/53/r<=4n", 14.2 },
{ "LI:NC2C:0/6/53/r>1e+10", 40.3 },
{ "LI:R2R:2//24/x<=-1", 9.52 },
{ "LI:R2R:2//24/x<=0", 9.14 },
{ "LI:R2R:2//24/x<=0.5", 9.35 },
{ "LI:R2R:2//24/x<=0.6", 12.7 },
{ "LI:R2R:2//24/x<=0.7", 9.5 },
{ "LI:R2R:2//24/x<=0.8", 8.16 },
{ "LI:R2R:2//24/x<=1", 6.41 },
{ "LI:R2R:2//24/x<=1.25", 7.14 },
{ "LI:R2R:2//24/x<=1.4", 7.28 },
{ "LI:R2R:2//24/x<=1.6", 7.24 },
{ "LI:R2R:2//24/x<=1.8", 7.3 },
{ "LI:R2R:2//24/x<=2", 7.45 },
{ "LI:R2R:2//24/x>2", 8.37 },
{ "LI:R2R:2//53/x<=-1", 24.9 },
{ "LI:R2R:2//53/x<=0", 24.1 },
{ "LI:R2R:2//53/x<=0.5", 28.9 },
{ "LI:R2R:2//53/x<=0.6", 36.8 },
{ "LI:R2R:2//53/x<=0.7", 12.3 },
{ "LI:R2R:2//53/x<=0.8", 7.1 },
{ "LI:R2R:2//53/x<=1", 6.29 },
{ "LI:R2R:2//53/x<=1.25", 5.7 },
{ "LI:R2R:2//53/x<=1.4", 7.08 },
{ "LI:R2R:2//53/x<=1.6", 7.32 },
{ "LI:R2R:2//53/x<=1.8", 7.99 },
{ "LI:R2R:2//53/x<=2", 8.9 },
{ "LI:R2R:2//53/x>2", 8.63 },
{ "LI:R2R:2//64/x<=-1", 11.6 },
{ "LI:R2R:2//64/x<=0", 9.88 },
{ "LI:R2R:2//64/x<=0.5", 10.6 },
{ "LI:R2R:2//64/x<=0.6", 16 },
{ "LI:R2R:2//64/x<=0.7", 8.7 },
{ "LI:R2R:2//64/x<=0.8", 7.71 },
{ "LI:R2R:2//64/x<=1", 6.38 },
{ "LI:R2R:2//64/x<=1.25", 6.9 },
{ "LI:R2R:2//64/x<=1.4", 7.12 },
{ "LI:R2R:2//64/x<=1.6", 7.2 },
{ "LI:R2R:2//64/x<=1.8", 7.17 },
{ "LI:R2R:2//64/x<=2", 7.5 },
{ "LI:R2R:2//64/x>2", 9.16 },
{ "LI:R2R:3//53/x<=-1", 11.2 },
{ "LI:R2R:3//53/x<=0", 7.99 },
{ "LI:R2R:3//53/x<=0.5", 22.8 },
{ "LI:R2R:3//53/x<=0.6", 36.7 },
{ "LI:R2R:3//53/x<=0.7", 16.3 },
{ "LI:R2R:3//53/x<=0.8", 7.98 },
{ "LI:R2R:3//53/x<=1", 6.99 },
{ "LI:R2R:3//53/x<=1.25", 6.13 },
{ "LI:R2R:3//53/x<=1.4", 7.33 },
{ "LI:R2R:3//53/x<=1.6", 7.66 },
{ "LI:R2R:3//53/x<=1.8", 8.49 },
{ "LI:R2R:3//53/x<=2", 8.71 },
{ "LI:R2R:3//53/x>2", 10.4 },
{ "LI:R2R:4//53/x<=-1", 16.2 },
{ "LI:R2R:4//53/x<=0", 8.34 },
{ "LI:R2R:4//53/x<=0.5", 17.1 },
{ "LI:R2R:4//53/x<=0.6", 63.6 },
{ "LI:R2R:4//53/x<=0.7", 150 },
{ "LI:R2R:4//53/x<=0.8", 324 },
{ "LI:R2R:4//53/x<=1", 5.75 },
{ "LI:R2R:4//53/x<=1.25", 6.72 },
{ "LI:R2R:4//53/x<=1.4", 194 },
{ "LI:R2R:4//53/x<=1.6", 82.2 },
{ "LI:R2R:4//53/x<=1.8", 22 },
{ "LI:R2R:4//53/x<=2", 12.7 },
{ "LI:R2R:4//53/x>2", 15.1 },
{ "LOG|LOG1P:C2C:1//24", 7.71 },
{ "LOG|LOG1P:C2C:1//24/axis", 8.71 },
{ "LOG|LOG1P:C2C:1//53", 7.75 },
{ "LOG|LOG1P:C2C:1//53/axis", 7.75 },
{ "LOG|LOG1P:C2C:1//64", 7.74 },
{ "LOG|LOG1P:C2C:1//64/axis", 9.11 },
{ "LOG|POSLOG:C2C:1//24", 6.45 },
{ "LOG|POSLOG:C2C:1//24/axis", 7.45 },
{ "LOG|POSLOG:C2C:1//53", 6.41 },
{ "LOG|POSLOG:C2C:1//53/axis", 7.41 },
{ "LOG|POSLOG:C2C:1//64", 6.52 },
{ "LOG|POSLOG:C2C:1//64/axis", 7.52 },
{ "MONO|LI:R2R:2//24/x<=-1", 9.52 },
{ "MONO|LI:R2R:2//24/x<=0", 9.18 },
{ "MONO|LI:R2R:2//24/x<=0.5", 9.35 },
{ "MONO|LI:R2R:2//24/x<=0.6", 12.7 },
{ "MONO|LI:R2R:2//24/x<=0.7", 9.5 },
{ "MONO|LI:R2R:2//24/x<=0.8", 8.16 },
{ "MONO|LI:R2R:2//24/x<=1", 6.41 },
{ "MONO|LI:R2R:2//53/x<=-1", 24.9 },
{ "MONO|LI:R2R:2//53/x<=0", 24.1 },
{ "MONO|LI:R2R:2//53/x<=0.5", 28.9 },
{ "MONO|LI:R2R:2//53/x<=0.6", 36.8 },
{ "MONO|LI:R2R:2//53/x<=0.7", 12.3 },
{ "MONO|LI:R2R:2//53/x<=0.8", 7.1 },
{ "MONO|LI:R2R:2//53/x<=1", 6.29 },
{ "MONO|LI:R2R:2//64/x<=-1", 11.6 },
{ "MONO|LI:R2R:2//64/x<=0", 9.88 },
{ "MONO|LI:R2R:2//64/x<=0.5", 10.6 },
{ "MONO|LI:R2R:2//64/x<=0.6", 16 },
{ "MONO|LI:R2R:2//64/x<=0.7", 8.7 },
{ "MONO|LI:R2R:2//64/x<=0.8", 7.71 },
{ "MONO|LI:R2R:2//64/x<=1", 6.38 },
{ "MONO|LI:R2R:3//53/x<=-1", 11.2 },
{ "MONO|LI:R2R:3//53/x<=0", 7.99 },
{ "MONO|LI:R2R:3//53/x<=0.5", 22.8 },
{ "MONO|LI:R2R:3//53/x<=0.6", 36.7 },
{ "MONO|LI:R2R:3//53/x<=0.7", 16.3 },
{ "MONO|LI:R2R:3//53/x<=0.8", 7.98 },
{ "MONO|LI:R2R:3//53/x<=1", 6.99 },
{ "MONO|LI:R2R:4//53/x<=-1", 16.2 },
{ "MONO|LI:R2R:4//53/x<=0", 8.34 },
{ "MONO|LI:R2R:4//53/x<=0.5", 17.1 },
{ "MONO|LI:R2R:4//53/x<=0.6", 63.6 },
{ "MONO|LI:R2R:4//53/x<=0.7", 150 },
{ "MONO|LI:R2R:4//53/x<=0.8", 324 },
{ "MONO|LI:R2R:4//53/x<=1", 34.8 },
{ "NEGETA:N2R:0/large", 5.01 },
{ "NEGETA:N2R:0/neg", 6.92 },
{ "NEGETA:N2R:0/small", 6.58 },
{ "PAR|CL:NR2R:0/1/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/1/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/1/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/1/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/1/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/1/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/2/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/2/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/2/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/2/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/2/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/200+/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/200+/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/200+/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/200+/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/3/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/3/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/3/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/3/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/3/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/30-199/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/30-199/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/30-199/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/4/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/4/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/4/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/4/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/4/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/5/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/5/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/5/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/5/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/5/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/6/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/6/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/6/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/6/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/6/53/v>3.141", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=0.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=0.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1.3", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1.64", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1.8", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=1e-06", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=2.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=2.6", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=2.95", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=3.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t<=3.141", 6 },
{ "PAR|CL:NR2R:0/7-29/53/t>3.141", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=0.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=0.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1.3", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1.64", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1.8", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=1e-06", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=2.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=2.6", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=2.95", 6 },
{ "PAR|CL:NR2R:0/7-29/53/u<=3.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=0.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=0.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1.3", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1.5", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1.64", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1.8", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=1e-06", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=2.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=2.6", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=2.95", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=3.1", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v<=3.141", 6 },
{ "PAR|CL:NR2R:0/7-29/53/v>3.141", 6 },
{ "PAR|CL:R2R:1//53/t<=0.1", 6 },
{ "PAR|CL:R2R:1//53/t<=0.5", 6 },
{ "PAR|CL:R2R:1//53/t<=1", 6 },
{ "PAR|CL:R2R:1//53/t<=1.3", 6 },
{ "PAR|CL:R2R:1//53/t<=1.5", 6 },
{ "PAR|CL:R2R:1//53/t<=1.64", 6 },
{ "PAR|CL:R2R:1//53/t<=1.8", 6 },
{ "PAR|CL:R2R:1//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:1//53/t<=2.1", 6 },
{ "PAR|CL:R2R:1//53/t<=2.6", 6 },
{ "PAR|CL:R2R:1//53/t<=2.95", 6 },
{ "PAR|CL:R2R:1//53/t<=3.1", 6 },
{ "PAR|CL:R2R:1//53/t<=3.141", 6 },
{ "PAR|CL:R2R:1//53/t>3.141", 6 },
{ "PAR|CL:R2R:1//53/u<=0.1", 6 },
{ "PAR|CL:R2R:1//53/u<=0.5", 6 },
{ "PAR|CL:R2R:1//53/u<=1", 6 },
{ "PAR|CL:R2R:1//53/u<=1.3", 6 },
{ "PAR|CL:R2R:1//53/u<=1.5", 6 },
{ "PAR|CL:R2R:1//53/u<=1.64", 6 },
{ "PAR|CL:R2R:1//53/u<=1.8", 6 },
{ "PAR|CL:R2R:1//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:1//53/u<=2.1", 6 },
{ "PAR|CL:R2R:1//53/u<=2.6", 6 },
{ "PAR|CL:R2R:1//53/u<=2.95", 6 },
{ "PAR|CL:R2R:1//53/u<=3.1", 6 },
{ "PAR|CL:R2R:1//53/v<=0.1", 6 },
{ "PAR|CL:R2R:1//53/v<=0.5", 6 },
{ "PAR|CL:R2R:1//53/v<=1", 6 },
{ "PAR|CL:R2R:1//53/v<=1.3", 6 },
{ "PAR|CL:R2R:1//53/v<=1.5", 6 },
{ "PAR|CL:R2R:1//53/v<=1.64", 6 },
{ "PAR|CL:R2R:1//53/v<=1.8", 6 },
{ "PAR|CL:R2R:1//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:1//53/v<=2.1", 6 },
{ "PAR|CL:R2R:1//53/v<=2.6", 6 },
{ "PAR|CL:R2R:1//53/v<=2.95", 6 },
{ "PAR|CL:R2R:1//53/v<=3.1", 6 },
{ "PAR|CL:R2R:1//53/v<=3.141", 6 },
{ "PAR|CL:R2R:1//53/v>3.141", 6 },
{ "PAR|CL:R2R:2//53/t<=0.1", 6 },
{ "PAR|CL:R2R:2//53/t<=0.5", 6 },
{ "PAR|CL:R2R:2//53/t<=1", 6 },
{ "PAR|CL:R2R:2//53/t<=1.3", 6 },
{ "PAR|CL:R2R:2//53/t<=1.5", 6 },
{ "PAR|CL:R2R:2//53/t<=1.64", 6 },
{ "PAR|CL:R2R:2//53/t<=1.8", 6 },
{ "PAR|CL:R2R:2//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:2//53/t<=2.1", 6 },
{ "PAR|CL:R2R:2//53/t<=2.6", 6 },
{ "PAR|CL:R2R:2//53/t<=2.95", 6 },
{ "PAR|CL:R2R:2//53/t<=3.1", 6 },
{ "PAR|CL:R2R:2//53/t<=3.141", 6 },
{ "PAR|CL:R2R:2//53/t>3.141", 6 },
{ "PAR|CL:R2R:2//53/u<=0.1", 6 },
{ "PAR|CL:R2R:2//53/u<=0.5", 6 },
{ "PAR|CL:R2R:2//53/u<=1", 6 },
{ "PAR|CL:R2R:2//53/u<=1.3", 6 },
{ "PAR|CL:R2R:2//53/u<=1.5", 6 },
{ "PAR|CL:R2R:2//53/u<=1.64", 6 },
{ "PAR|CL:R2R:2//53/u<=1.8", 6 },
{ "PAR|CL:R2R:2//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:2//53/u<=2.1", 6 },
{ "PAR|CL:R2R:2//53/u<=2.6", 6 },
{ "PAR|CL:R2R:2//53/u<=2.95", 6 },
{ "PAR|CL:R2R:2//53/u<=3.1", 6 },
{ "PAR|CL:R2R:2//53/v<=0.1", 6 },
{ "PAR|CL:R2R:2//53/v<=0.5", 6 },
{ "PAR|CL:R2R:2//53/v<=1", 6 },
{ "PAR|CL:R2R:2//53/v<=1.3", 6 },
{ "PAR|CL:R2R:2//53/v<=1.5", 6 },
{ "PAR|CL:R2R:2//53/v<=1.64", 6 },
{ "PAR|CL:R2R:2//53/v<=1.8", 6 },
{ "PAR|CL:R2R:2//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:2//53/v<=2.1", 6 },
{ "PAR|CL:R2R:2//53/v<=2.6", 6 },
{ "PAR|CL:R2R:2//53/v<=2.95", 6 },
{ "PAR|CL:R2R:2//53/v<=3.1", 6 },
{ "PAR|CL:R2R:2//53/v<=3.141", 6 },
{ "PAR|CL:R2R:2//53/v>3.141", 6 },
{ "PAR|CL:R2R:2//64/t<=0.1", 6 },
{ "PAR|CL:R2R:2//64/t<=0.5", 6 },
{ "PAR|CL:R2R:2//64/t<=1", 6 },
{ "PAR|CL:R2R:2//64/t<=1.3", 6 },
{ "PAR|CL:R2R:2//64/t<=1.5", 6 },
{ "PAR|CL:R2R:2//64/t<=1.64", 6 },
{ "PAR|CL:R2R:2//64/t<=1.8", 6 },
{ "PAR|CL:R2R:2//64/t<=1e-06", 6 },
{ "PAR|CL:R2R:2//64/t<=2.1", 6 },
{ "PAR|CL:R2R:2//64/t<=2.6", 6 },
{ "PAR|CL:R2R:2//64/t<=2.95", 6 },
{ "PAR|CL:R2R:2//64/t<=3.1", 6 },
{ "PAR|CL:R2R:2//64/t<=3.141", 6 },
{ "PAR|CL:R2R:2//64/t>3.141", 6 },
{ "PAR|CL:R2R:2//64/u<=0.1", 6 },
{ "PAR|CL:R2R:2//64/u<=0.5", 6 },
{ "PAR|CL:R2R:2//64/u<=1", 6 },
{ "PAR|CL:R2R:2//64/u<=1.3", 6 },
{ "PAR|CL:R2R:2//64/u<=1.5", 6 },
{ "PAR|CL:R2R:2//64/u<=1.64", 6 },
{ "PAR|CL:R2R:2//64/u<=1.8", 6 },
{ "PAR|CL:R2R:2//64/u<=1e-06", 6 },
{ "PAR|CL:R2R:2//64/u<=2.1", 6 },
{ "PAR|CL:R2R:2//64/u<=2.6", 6 },
{ "PAR|CL:R2R:2//64/u<=2.95", 6 },
{ "PAR|CL:R2R:2//64/u<=3.1", 6 },
{ "PAR|CL:R2R:2//64/v<=0.1", 6 },
{ "PAR|CL:R2R:2//64/v<=0.5", 6 },
{ "PAR|CL:R2R:2//64/v<=1", 6 },
{ "PAR|CL:R2R:2//64/v<=1.3", 6 },
{ "PAR|CL:R2R:2//64/v<=1.5", 6 },
{ "PAR|CL:R2R:2//64/v<=1.64", 6 },
{ "PAR|CL:R2R:2//64/v<=1.8", 6 },
{ "PAR|CL:R2R:2//64/v<=1e-06", 6 },
{ "PAR|CL:R2R:2//64/v<=2.1", 6 },
{ "PAR|CL:R2R:2//64/v<=2.6", 6 },
{ "PAR|CL:R2R:2//64/v<=2.95", 6 },
{ "PAR|CL:R2R:2//64/v<=3.1", 6 },
{ "PAR|CL:R2R:2//64/v<=3.141", 6 },
{ "PAR|CL:R2R:2//64/v>3.141", 6 },
{ "PAR|CL:R2R:3//53/t<=0.1", 6 },
{ "PAR|CL:R2R:3//53/t<=0.5", 6 },
{ "PAR|CL:R2R:3//53/t<=1", 6 },
{ "PAR|CL:R2R:3//53/t<=1.3", 6 },
{ "PAR|CL:R2R:3//53/t<=1.5", 6 },
{ "PAR|CL:R2R:3//53/t<=1.64", 6 },
{ "PAR|CL:R2R:3//53/t<=1.8", 6 },
{ "PAR|CL:R2R:3//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:3//53/t<=2.1", 6 },
{ "PAR|CL:R2R:3//53/t<=2.6", 6 },
{ "PAR|CL:R2R:3//53/t<=2.95", 6 },
{ "PAR|CL:R2R:3//53/t<=3.1", 6 },
{ "PAR|CL:R2R:3//53/t<=3.141", 6 },
{ "PAR|CL:R2R:3//53/t>3.141", 6 },
{ "PAR|CL:R2R:3//53/u<=0.1", 6 },
{ "PAR|CL:R2R:3//53/u<=0.5", 6 },
{ "PAR|CL:R2R:3//53/u<=1", 6 },
{ "PAR|CL:R2R:3//53/u<=1.3", 6 },
{ "PAR|CL:R2R:3//53/u<=1.5", 6 },
{ "PAR|CL:R2R:3//53/u<=1.64", 6 },
{ "PAR|CL:R2R:3//53/u<=1.8", 6 },
{ "PAR|CL:R2R:3//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:3//53/u<=2.1", 6 },
{ "PAR|CL:R2R:3//53/u<=2.6", 6 },
{ "PAR|CL:R2R:3//53/u<=2.95", 6 },
{ "PAR|CL:R2R:3//53/u<=3.1", 6 },
{ "PAR|CL:R2R:3//53/v<=0.1", 6 },
{ "PAR|CL:R2R:3//53/v<=0.5", 6 },
{ "PAR|CL:R2R:3//53/v<=1", 6 },
{ "PAR|CL:R2R:3//53/v<=1.3", 6 },
{ "PAR|CL:R2R:3//53/v<=1.5", 6 },
{ "PAR|CL:R2R:3//53/v<=1.64", 6 },
{ "PAR|CL:R2R:3//53/v<=1.8", 6 },
{ "PAR|CL:R2R:3//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:3//53/v<=2.1", 6 },
{ "PAR|CL:R2R:3//53/v<=2.6", 6 },
{ "PAR|CL:R2R:3//53/v<=2.95", 6 },
{ "PAR|CL:R2R:3//53/v<=3.1", 6 },
{ "PAR|CL:R2R:3//53/v<=3.141", 6 },
{ "PAR|CL:R2R:3//53/v>3.141", 6 },
{ "PAR|CL:R2R:3//64/t<=0.1", 6 },
{ "PAR|CL:R2R:3//64/t<=0.5", 6 },
{ "PAR|CL:R2R:3//64/t<=1", 6 },
{ "PAR|CL:R2R:3//64/t<=1.3", 6 },
{ "PAR|CL:R2R:3//64/t<=1.5", 6 },
{ "PAR|CL:R2R:3//64/t<=1.64", 6 },
{ "PAR|CL:R2R:3//64/t<=1.8", 6 },
{ "PAR|CL:R2R:3//64/t<=1e-06", 6 },
{ "PAR|CL:R2R:3//64/t<=2.1", 6 },
{ "PAR|CL:R2R:3//64/t<=2.6", 6 },
{ "PAR|CL:R2R:3//64/t<=2.95", 6 },
{ "PAR|CL:R2R:3//64/t<=3.1", 6 },
{ "PAR|CL:R2R:3//64/t<=3.141", 6 },
{ "PAR|CL:R2R:3//64/t>3.141", 6 },
{ "PAR|CL:R2R:3//64/u<=0.1", 6 },
{ "PAR|CL:R2R:3//64/u<=0.5", 6 },
{ "PAR|CL:R2R:3//64/u<=1", 6 },
{ "PAR|CL:R2R:3//64/u<=1.3", 6 },
{ "PAR|CL:R2R:3//64/u<=1.5", 6 },
{ "PAR|CL:R2R:3//64/u<=1.64", 6 },
{ "PAR|CL:R2R:3//64/u<=1.8", 6 },
{ "PAR|CL:R2R:3//64/u<=1e-06", 6 },
{ "PAR|CL:R2R:3//64/u<=2.1", 6 },
{ "PAR|CL:R2R:3//64/u<=2.6", 6 },
{ "PAR|CL:R2R:3//64/u<=2.95", 6 },
{ "PAR|CL:R2R:3//64/u<=3.1", 6 },
{ "PAR|CL:R2R:3//64/v<=0.1", 6 },
{ "PAR|CL:R2R:3//64/v<=0.5", 6 },
{ "PAR|CL:R2R:3//64/v<=1", 6 },
{ "PAR|CL:R2R:3//64/v<=1.3", 6 },
{ "PAR|CL:R2R:3//64/v<=1.5", 6 },
{ "PAR|CL:R2R:3//64/v<=1.64", 6 },
{ "PAR|CL:R2R:3//64/v<=1.8", 6 },
{ "PAR|CL:R2R:3//64/v<=1e-06", 6 },
{ "PAR|CL:R2R:3//64/v<=2.1", 6 },
{ "PAR|CL:R2R:3//64/v<=2.6", 6 },
{ "PAR|CL:R2R:3//64/v<=2.95", 6 },
{ "PAR|CL:R2R:3//64/v<=3.1", 6 },
{ "PAR|CL:R2R:3//64/v<=3.141", 6 },
{ "PAR|CL:R2R:3//64/v>3.141", 6 },
{ "PAR|CL:R2R:4//53/t<=0.1", 6 },
{ "PAR|CL:R2R:4//53/t<=0.5", 6 },
{ "PAR|CL:R2R:4//53/t<=1", 6 },
{ "PAR|CL:R2R:4//53/t<=1.3", 6 },
{ "PAR|CL:R2R:4//53/t<=1.5", 6 },
{ "PAR|CL:R2R:4//53/t<=1.64", 6 },
{ "PAR|CL:R2R:4//53/t<=1.8", 6 },
{ "PAR|CL:R2R:4//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:4//53/t<=2.1", 6 },
{ "PAR|CL:R2R:4//53/t<=2.6", 6 },
{ "PAR|CL:R2R:4//53/t<=2.95", 6 },
{ "PAR|CL:R2R:4//53/t<=3.1", 6 },
{ "PAR|CL:R2R:4//53/t<=3.141", 6 },
{ "PAR|CL:R2R:4//53/t>3.141", 6 },
{ "PAR|CL:R2R:4//53/u<=0.1", 6 },
{ "PAR|CL:R2R:4//53/u<=0.5", 6 },
{ "PAR|CL:R2R:4//53/u<=1", 6 },
{ "PAR|CL:R2R:4//53/u<=1.3", 6 },
{ "PAR|CL:R2R:4//53/u<=1.5", 6 },
{ "PAR|CL:R2R:4//53/u<=1.64", 6 },
{ "PAR|CL:R2R:4//53/u<=1.8", 6 },
{ "PAR|CL:R2R:4//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:4//53/u<=2.1", 6 },
{ "PAR|CL:R2R:4//53/u<=2.6", 6 },
{ "PAR|CL:R2R:4//53/u<=2.95", 6 },
{ "PAR|CL:R2R:4//53/u<=3.1", 6 },
{ "PAR|CL:R2R:4//53/v<=0.1", 6 },
{ "PAR|CL:R2R:4//53/v<=0.5", 6 },
{ "PAR|CL:R2R:4//53/v<=1", 6 },
{ "PAR|CL:R2R:4//53/v<=1.3", 6 },
{ "PAR|CL:R2R:4//53/v<=1.5", 6 },
{ "PAR|CL:R2R:4//53/v<=1.64", 6 },
{ "PAR|CL:R2R:4//53/v<=1.8", 6 },
{ "PAR|CL:R2R:4//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:4//53/v<=2.1", 6 },
{ "PAR|CL:R2R:4//53/v<=2.6", 6 },
{ "PAR|CL:R2R:4//53/v<=2.95", 6 },
{ "PAR|CL:R2R:4//53/v<=3.1", 6 },
{ "PAR|CL:R2R:4//53/v<=3.141", 6 },
{ "PAR|CL:R2R:4//53/v>3.141", 6 },
{ "PAR|CL:R2R:4//64/t<=0.1", 6 },
{ "PAR|CL:R2R:4//64/t<=0.5", 6 },
{ "PAR|CL:R2R:4//64/t<=1", 6 },
{ "PAR|CL:R2R:4//64/t<=1.3", 6 },
{ "PAR|CL:R2R:4//64/t<=1.5", 6 },
{ "PAR|CL:R2R:4//64/t<=1.64", 6 },
{ "PAR|CL:R2R:4//64/t<=1.8", 6 },
{ "PAR|CL:R2R:4//64/t<=1e-06", 6 },
{ "PAR|CL:R2R:4//64/t<=2.1", 6 },
{ "PAR|CL:R2R:4//64/t<=2.6", 6 },
{ "PAR|CL:R2R:4//64/t<=2.95", 6 },
{ "PAR|CL:R2R:4//64/t<=3.1", 6 },
{ "PAR|CL:R2R:4//64/t<=3.141", 6 },
{ "PAR|CL:R2R:4//64/t>3.141", 6 },
{ "PAR|CL:R2R:4//64/u<=0.1", 6 },
{ "PAR|CL:R2R:4//64/u<=0.5", 6 },
{ "PAR|CL:R2R:4//64/u<=1", 6 },
{ "PAR|CL:R2R:4//64/u<=1.3", 6 },
{ "PAR|CL:R2R:4//64/u<=1.5", 6 },
{ "PAR|CL:R2R:4//64/u<=1.64", 6 },
{ "PAR|CL:R2R:4//64/u<=1.8", 6 },
{ "PAR|CL:R2R:4//64/u<=1e-06", 6 },
{ "PAR|CL:R2R:4//64/u<=2.1", 6 },
{ "PAR|CL:R2R:4//64/u<=2.6", 6 },
{ "PAR|CL:R2R:4//64/u<=2.95", 6 },
{ "PAR|CL:R2R:4//64/u<=3.1", 6 },
{ "PAR|CL:R2R:4//64/v<=0.1", 6 },
{ "PAR|CL:R2R:4//64/v<=0.5", 6 },
{ "PAR|CL:R2R:4//64/v<=1", 6 },
{ "PAR|CL:R2R:4//64/v<=1.3", 6 },
{ "PAR|CL:R2R:4//64/v<=1.5", 6 },
{ "PAR|CL:R2R:4//64/v<=1.64", 6 },
{ "PAR|CL:R2R:4//64/v<=1.8", 6 },
{ "PAR|CL:R2R:4//64/v<=1e-06", 6 },
{ "PAR|CL:R2R:4//64/v<=2.1", 6 },
{ "PAR|CL:R2R:4//64/v<=2.6", 6 },
{ "PAR|CL:R2R:4//64/v<=2.95", 6 },
{ "PAR|CL:R2R:4//64/v<=3.1", 6 },
{ "PAR|CL:R2R:4//64/v<=3.141", 6 },
{ "PAR|CL:R2R:4//64/v>3.141", 6 },
{ "PAR|CL:R2R:5//53/t<=0.1", 6 },
{ "PAR|CL:R2R:5//53/t<=0.5", 6 },
{ "PAR|CL:R2R:5//53/t<=1", 6 },
{ "PAR|CL:R2R:5//53/t<=1.3", 6 },
{ "PAR|CL:R2R:5//53/t<=1.5", 6 },
{ "PAR|CL:R2R:5//53/t<=1.64", 6 },
{ "PAR|CL:R2R:5//53/t<=1.8", 6 },
{ "PAR|CL:R2R:5//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:5//53/t<=2.1", 6 },
{ "PAR|CL:R2R:5//53/t<=2.6", 6 },
{ "PAR|CL:R2R:5//53/t<=2.95", 6 },
{ "PAR|CL:R2R:5//53/t<=3.1", 6 },
{ "PAR|CL:R2R:5//53/t<=3.141", 6 },
{ "PAR|CL:R2R:5//53/t>3.141", 6 },
{ "PAR|CL:R2R:5//53/u<=0.1", 6 },
{ "PAR|CL:R2R:5//53/u<=0.5", 6 },
{ "PAR|CL:R2R:5//53/u<=1", 6 },
{ "PAR|CL:R2R:5//53/u<=1.3", 6 },
{ "PAR|CL:R2R:5//53/u<=1.5", 6 },
{ "PAR|CL:R2R:5//53/u<=1.64", 6 },
{ "PAR|CL:R2R:5//53/u<=1.8", 6 },
{ "PAR|CL:R2R:5//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:5//53/u<=2.1", 6 },
{ "PAR|CL:R2R:5//53/u<=2.6", 6 },
{ "PAR|CL:R2R:5//53/u<=2.95", 6 },
{ "PAR|CL:R2R:5//53/u<=3.1", 6 },
{ "PAR|CL:R2R:5//53/v<=0.1", 6 },
{ "PAR|CL:R2R:5//53/v<=0.5", 6 },
{ "PAR|CL:R2R:5//53/v<=1", 6 },
{ "PAR|CL:R2R:5//53/v<=1.3", 6 },
{ "PAR|CL:R2R:5//53/v<=1.5", 6 },
{ "PAR|CL:R2R:5//53/v<=1.64", 6 },
{ "PAR|CL:R2R:5//53/v<=1.8", 6 },
{ "PAR|CL:R2R:5//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:5//53/v<=2.1", 6 },
{ "PAR|CL:R2R:5//53/v<=2.6", 6 },
{ "PAR|CL:R2R:5//53/v<=2.95", 6 },
{ "PAR|CL:R2R:5//53/v<=3.1", 6 },
{ "PAR|CL:R2R:5//53/v<=3.141", 6 },
{ "PAR|CL:R2R:5//53/v>3.141", 6 },
{ "PAR|CL:R2R:5//64/t<=0.1", 6 },
{ "PAR|CL:R2R:5//64/t<=0.5", 6 },
{ "PAR|CL:R2R:5//64/t<=1", 6 },
{ "PAR|CL:R2R:5//64/t<=1.3", 6 },
{ "PAR|CL:R2R:5//64/t<=1.5", 6 },
{ "PAR|CL:R2R:5//64/t<=1.64", 6 },
{ "PAR|CL:R2R:5//64/t<=1.8", 6 },
{ "PAR|CL:R2R:5//64/t<=1e-06", 6 },
{ "PAR|CL:R2R:5//64/t<=2.1", 6 },
{ "PAR|CL:R2R:5//64/t<=2.6", 6 },
{ "PAR|CL:R2R:5//64/t<=2.95", 6 },
{ "PAR|CL:R2R:5//64/t<=3.1", 6 },
{ "PAR|CL:R2R:5//64/t<=3.141", 6 },
{ "PAR|CL:R2R:5//64/t>3.141", 6 },
{ "PAR|CL:R2R:5//64/u<=0.1", 6 },
{ "PAR|CL:R2R:5//64/u<=0.5", 6 },
{ "PAR|CL:R2R:5//64/u<=1", 6 },
{ "PAR|CL:R2R:5//64/u<=1.3", 6 },
{ "PAR|CL:R2R:5//64/u<=1.5", 6 },
{ "PAR|CL:R2R:5//64/u<=1.64", 6 },
{ "PAR|CL:R2R:5//64/u<=1.8", 6 },
{ "PAR|CL:R2R:5//64/u<=1e-06", 6 },
{ "PAR|CL:R2R:5//64/u<=2.1", 6 },
{ "PAR|CL:R2R:5//64/u<=2.6", 6 },
{ "PAR|CL:R2R:5//64/u<=2.95", 6 },
{ "PAR|CL:R2R:5//64/u<=3.1", 6 },
{ "PAR|CL:R2R:5//64/v<=0.1", 6 },
{ "PAR|CL:R2R:5//64/v<=0.5", 6 },
{ "PAR|CL:R2R:5//64/v<=1", 6 },
{ "PAR|CL:R2R:5//64/v<=1.3", 6 },
{ "PAR|CL:R2R:5//64/v<=1.5", 6 },
{ "PAR|CL:R2R:5//64/v<=1.64", 6 },
{ "PAR|CL:R2R:5//64/v<=1.8", 6 },
{ "PAR|CL:R2R:5//64/v<=1e-06", 6 },
{ "PAR|CL:R2R:5//64/v<=2.1", 6 },
{ "PAR|CL:R2R:5//64/v<=2.6", 6 },
{ "PAR|CL:R2R:5//64/v<=2.95", 6 },
{ "PAR|CL:R2R:5//64/v<=3.1", 6 },
{ "PAR|CL:R2R:5//64/v<=3.141", 6 },
{ "PAR|CL:R2R:5//64/v>3.141", 6 },
{ "PAR|CL:R2R:6//53/t<=0.1", 6 },
{ "PAR|CL:R2R:6//53/t<=0.5", 6 },
{ "PAR|CL:R2R:6//53/t<=1", 6 },
{ "PAR|CL:R2R:6//53/t<=1.3", 6 },
{ "PAR|CL:R2R:6//53/t<=1.5", 6 },
{ "PAR|CL:R2R:6//53/t<=1.64", 6 },
{ "PAR|CL:R2R:6//53/t<=1.8", 6 },
{ "PAR|CL:R2R:6//53/t<=1e-06", 6 },
{ "PAR|CL:R2R:6//53/t<=2.1", 6 },
{ "PAR|CL:R2R:6//53/t<=2.6", 6 },
{ "PAR|CL:R2R:6//53/t<=2.95", 6 },
{ "PAR|CL:R2R:6//53/t<=3.1", 6 },
{ "PAR|CL:R2R:6//53/t<=3.141", 6 },
{ "PAR|CL:R2R:6//53/t>3.141", 6 },
{ "PAR|CL:R2R:6//53/u<=0.1", 6 },
{ "PAR|CL:R2R:6//53/u<=0.5", 6 },
{ "PAR|CL:R2R:6//53/u<=1", 6 },
{ "PAR|CL:R2R:6//53/u<=1.3", 6 },
{ "PAR|CL:R2R:6//53/u<=1.5", 6 },
{ "PAR|CL:R2R:6//53/u<=1.64", 6 },
{ "PAR|CL:R2R:6//53/u<=1.8", 6 },
{ "PAR|CL:R2R:6//53/u<=1e-06", 6 },
{ "PAR|CL:R2R:6//53/u<=2.1", 6 },
{ "PAR|CL:R2R:6//53/u<=2.6", 6 },
{ "PAR|CL:R2R:6//53/u<=2.95", 6 },
{ "PAR|CL:R2R:6//53/u<=3.1", 6 },
{ "PAR|CL:R2R:6//53/v<=0.1", 6 },
{ "PAR|CL:R2R:6//53/v<=0.5", 6 },
{ "PAR|CL:R2R:6//53/v<=1", 6 },
{ "PAR|CL:R2R:6//53/v<=1.3", 6 },
{ "PAR|CL:R2R:6//53/v<=1.5", 6 },
{ "PAR|CL:R2R:6//53/v<=1.64", 6 },
{ "PAR|CL:R2R:6//53/v<=1.8", 6 },
{ "PAR|CL:R2R:6//53/v<=1e-06", 6 },
{ "PAR|CL:R2R:6//53/v<=2.1", 6 },
{ "PAR|CL:R2R:6//53/v<=2.6", 6 },
{ "PAR|CL:R2R:6//53/v<=2.95", 6 },
{ "PAR|CL:R2R:6//53/v<=3.1", 6 },
{ "PAR|CL:R2R:6//53/v<=3.141", 6 },
{ "PAR|CL:R2R:6//53/v>3.141", 6 },
{ "PAR|CL:R2R:6//64/t<=0.1", 6 },
{ "PAR|CL:R2R:6//64/t<=0.5", 6 },
{ "PAR|CL:R2R:6//64/t<=1", 6 },
{ "PAR|CL:R2R:6//64/t<=1.3", 6 },
{ "PAR|CL:R2R:6//64/t<=1.5", 6 },
{ "PAR|CL:R2R:6//64/t<=1.64", 6 },
{ "PAR|CL:R2R:6//64/t<=1.8", 6 },
{ "PAR|CL:R2R:6//64/t<=1e-06", 6 },
{ "PAR|CL:R2R:6//64/t<=2.1", 6 },
{ "PAR|CL:R2R:6//64/t<=2.6", 6 },
{ "PAR|CL:R2R:6//64/t<=2.95", 6 },
{ "PAR|CL:R2R:6//64/t<=3.1", 6 },
{ "PAR|CL:R2R:6//64/t<=3.141", 6 },
{ "PAR|CL:R2R:6//64/t>3.141", 6 },
{ "PAR|CL:R2R:6//64/u<=0.1", 6 },
{ "PAR|CL:R2R:6//64/u<=0.5", 6 },
{ "PAR|CL:R2R:6//64/u<=1", 6 },
{ "PAR|CL:R2R:6//64/u<=1.3", 6 },
{ "PAR|CL:R2R:6//64/u<=1.5", 6 },
{ "PAR|CL:R2R:6//64/u<=1.64", 6 },
{ "PAR|CL:R2R:6//64/u<=1.8", 6 },
{ "PAR|CL:R2R:6//64/u<=1e-06", 6 },
{ "PAR|CL:R2R:6//64/u<=2.1", 6 },
{ "PAR|CL:R2R:6//64/u<=2.6", 6 },
{ "PAR|CL:R2R:6//64/u<=2.95", 6 },
{ "PAR|CL:R2R:6//64/u<=3.1", 6 },
{ "PAR|CL:R2R:6//64/v<=0.1", 6 },
{ "PAR|CL:R2R:6//64/v<=0.5", 6 },
{ "PAR|CL:R2R:6//64/v<=1", 6 },
{ "PAR|CL:R2R:6//64/v<=1.3", 6 },
{ "PAR|CL:R2R:6//64/v<=1.5", 6 },
{ "PAR|CL:R2R:6//64/v<=1.64", 6 },
{ "PAR|CL:R2R:6//64/v<=1.8", 6 },
{ "PAR|CL:R2R:6//64/v<=1e-06", 6 },
{ "PAR|CL:R2R:6//64/v<=2.1", 6 },
{ "PAR|CL:R2R:6//64/v<=2.6", 6 },
{ "PAR|CL:R2R:6//64/v<=2.95", 6 },
{ "PAR|CL:R2R:6//64/v<=3.1", 6 },
{ "PAR|CL:R2R:6//64/v<=3.141", 6 },
{ "PAR|CL:R2R:6//64/v>3.141", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/1/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/1/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/1/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/1/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/1/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/2/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/2/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/2/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/2/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/2/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/200+/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/200+/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/200+/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/200+/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/3/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/3/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/3/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/3/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/3/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/30-199/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/30-199/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/30-199/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/4/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/4/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/4/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/4/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/4/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/5/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/5/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/5/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/5/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/5/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/6/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/6/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/6/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/6/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/6/53/v>3.141", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=0.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=0.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1.3", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1.64", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1.8", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=1e-06", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=2.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=2.6", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=2.95", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=3.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t<=3.141", 6 },
{ "PAR|SL:NR2R:0/7-29/53/t>3.141", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=0.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=0.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1.3", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1.64", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1.8", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=1e-06", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=2.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=2.6", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=2.95", 6 },
{ "PAR|SL:NR2R:0/7-29/53/u<=3.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=0.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=0.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1.3", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1.5", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1.64", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1.8", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=1e-06", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=2.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=2.6", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=2.95", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=3.1", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v<=3.141", 6 },
{ "PAR|SL:NR2R:0/7-29/53/v>3.141", 6 },
{ "PER|CL:NR2R:0/1/53/t<=0.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=0.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=1", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=1.3", 12.6 },
{ "PER|CL:NR2R:0/1/53/t<=1.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=1.64", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=1.8", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/1/53/t<=2.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=2.95", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=3.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/t<=3.141", 12.7 },
{ "PER|CL:NR2R:0/1/53/t>3.141", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=0.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=0.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1.3", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1.64", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1.8", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/1/53/u<=2.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=2.6", 12.7 },
{ "PER|CL:NR2R:0/1/53/u<=2.95", 12.8 },
{ "PER|CL:NR2R:0/1/53/u<=3.1", 12.9 },
{ "PER|CL:NR2R:0/1/53/v<=0.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=0.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=1", 12.6 },
{ "PER|CL:NR2R:0/1/53/v<=1.3", 12.6 },
{ "PER|CL:NR2R:0/1/53/v<=1.5", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=1.64", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=1.8", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/1/53/v<=2.1", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/1/53/v<=2.95", 12.6 },
{ "PER|CL:NR2R:0/1/53/v<=3.1", 12.6 },
{ "PER|CL:NR2R:0/1/53/v<=3.141", 12.7 },
{ "PER|CL:NR2R:0/1/53/v>3.141", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=0.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=0.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=1", 13.2 },
{ "PER|CL:NR2R:0/2/53/t<=1.3", 13.1 },
{ "PER|CL:NR2R:0/2/53/t<=1.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=1.64", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=1.8", 12.8 },
{ "PER|CL:NR2R:0/2/53/t<=1e-06", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=2.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=2.95", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=3.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/t<=3.141", 12.7 },
{ "PER|CL:NR2R:0/2/53/t>3.141", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=0.1", 12.6 },
{ "PER|CL:NR2R:0/2/53/u<=0.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=1.3", 13 },
{ "PER|CL:NR2R:0/2/53/u<=1.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=1.64", 12.6 },
{ "PER|CL:NR2R:0/2/53/u<=1.8", 12.6 },
{ "PER|CL:NR2R:0/2/53/u<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/2/53/u<=2.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=2.6", 12.7 },
{ "PER|CL:NR2R:0/2/53/u<=2.95", 12.6 },
{ "PER|CL:NR2R:0/2/53/u<=3.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=0.1", 12.6 },
{ "PER|CL:NR2R:0/2/53/v<=0.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=1", 13.2 },
{ "PER|CL:NR2R:0/2/53/v<=1.3", 13 },
{ "PER|CL:NR2R:0/2/53/v<=1.5", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=1.64", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=1.8", 12.6 },
{ "PER|CL:NR2R:0/2/53/v<=1e-06", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=2.1", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/2/53/v<=2.95", 12.6 },
{ "PER|CL:NR2R:0/2/53/v<=3.1", 12.6 },
{ "PER|CL:NR2R:0/2/53/v<=3.141", 12.6 },
{ "PER|CL:NR2R:0/2/53/v>3.141", 12.7 },
{ "PER|CL:NR2R:0/200+/53/t<=0.1", 6.67 },
{ "PER|CL:NR2R:0/200+/53/t<=0.5", 6.67 },
{ "PER|CL:NR2R:0/200+/53/t<=1", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=1.3", 6.65 },
{ "PER|CL:NR2R:0/200+/53/t<=1.5", 6.67 },
{ "PER|CL:NR2R:0/200+/53/t<=1.64", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=1.8", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=1e-06", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=2.1", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=2.6", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=2.95", 6.67 },
{ "PER|CL:NR2R:0/200+/53/t<=3.1", 6.66 },
{ "PER|CL:NR2R:0/200+/53/t<=3.141", 12.6 },
{ "PER|CL:NR2R:0/200+/53/t>3.141", 6.92 },
{ "PER|CL:NR2R:0/200+/53/u<=0.1", 12.6 },
{ "PER|CL:NR2R:0/200+/53/u<=0.5", 6.66 },
{ "PER|CL:NR2R:0/200+/53/u<=1", 6.66 },
{ "PER|CL:NR2R:0/200+/53/u<=1.3", 6.65 },
{ "PER|CL:NR2R:0/200+/53/u<=1.5", 12.6 },
{ "PER|CL:NR2R:0/200+/53/u<=1.64", 6.63 },
{ "PER|CL:NR2R:0/200+/53/u<=1.8", 12.7 },
{ "PER|CL:NR2R:0/200+/53/u<=1e-06", 6.66 },
{ "PER|CL:NR2R:0/200+/53/u<=2.1", 6.65 },
{ "PER|CL:NR2R:0/200+/53/u<=2.6", 6.66 },
{ "PER|CL:NR2R:0/200+/53/u<=2.95", 6.65 },
{ "PER|CL:NR2R:0/200+/53/u<=3.1", 12.7 },
{ "PER|CL:NR2R:0/200+/53/v<=0.1", 6.64 },
{ "PER|CL:NR2R:0/200+/53/v<=0.5", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=1", 6.67 },
{ "PER|CL:NR2R:0/200+/53/v<=1.3", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=1.5", 6.64 },
{ "PER|CL:NR2R:0/200+/53/v<=1.64", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=1.8", 6.65 },
{ "PER|CL:NR2R:0/200+/53/v<=1e-06", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=2.1", 6.67 },
{ "PER|CL:NR2R:0/200+/53/v<=2.6", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=2.95", 6.66 },
{ "PER|CL:NR2R:0/200+/53/v<=3.1", 6.65 },
{ "PER|CL:NR2R:0/200+/53/v<=3.141", 12.6 },
{ "PER|CL:NR2R:0/200+/53/v>3.141", 6.66 },
{ "PER|CL:NR2R:0/3/53/t<=0.1", 12.8 },
{ "PER|CL:NR2R:0/3/53/t<=0.5", 12.6 },
{ "PER|CL:NR2R:0/3/53/t<=1", 12.7 },
{ "PER|CL:NR2R:0/3/53/t<=1.3", 12.7 },
{ "PER|CL:NR2R:0/3/53/t<=1.5", 13.9 },
{ "PER|CL:NR2R:0/3/53/t<=1.64", 14.5 },
{ "PER|CL:NR2R:0/3/53/t<=1.8", 12.7 },
{ "PER|CL:NR2R:0/3/53/t<=1e-06", 12.8 },
{ "PER|CL:NR2R:0/3/53/t<=2.1", 12.6 },
{ "PER|CL:NR2R:0/3/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/3/53/t<=2.95", 12.8 },
{ "PER|CL:NR2R:0/3/53/t<=3.1", 14.2 },
{ "PER|CL:NR2R:0/3/53/t<=3.141", 14.3 },
{ "PER|CL:NR2R:0/3/53/t>3.141", 14.4 },
{ "PER|CL:NR2R:0/3/53/u<=0.1", 12.8 },
{ "PER|CL:NR2R:0/3/53/u<=0.5", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1.3", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1.5", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1.64", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1.8", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=1e-06", 12.8 },
{ "PER|CL:NR2R:0/3/53/u<=2.1", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=2.6", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=2.95", 12.7 },
{ "PER|CL:NR2R:0/3/53/u<=3.1", 13.1 },
{ "PER|CL:NR2R:0/3/53/v<=0.1", 12.8 },
{ "PER|CL:NR2R:0/3/53/v<=0.5", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1.3", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1.5", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1.64", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1.8", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=1e-06", 12.8 },
{ "PER|CL:NR2R:0/3/53/v<=2.1", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/3/53/v<=2.95", 12.6 },
{ "PER|CL:NR2R:0/3/53/v<=3.1", 13 },
{ "PER|CL:NR2R:0/3/53/v<=3.141", 15 },
{ "PER|CL:NR2R:0/3/53/v>3.141", 15.4 },
{ "PER|CL:NR2R:0/30-199/53/t<=0.1", 8.07 },
{ "PER|CL:NR2R:0/30-199/53/t<=0.5", 7.44 },
{ "PER|CL:NR2R:0/30-199/53/t<=1", 7.42 },
{ "PER|CL:NR2R:0/30-199/53/t<=1.3", 7.06 },
{ "PER|CL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "PER|CL:NR2R:0/30-199/53/t<=1.64", 7.37 },
{ "PER|CL:NR2R:0/30-199/53/t<=1.8", 7.25 },
{ "PER|CL:NR2R:0/30-199/53/t<=1e-06", 7.08 },
{ "PER|CL:NR2R:0/30-199/53/t<=2.1", 7 },
{ "PER|CL:NR2R:0/30-199/53/t<=2.6", 6.72 },
{ "PER|CL:NR2R:0/30-199/53/t<=2.95", 6.75 },
{ "PER|CL:NR2R:0/30-199/53/t<=3.1", 7.22 },
{ "PER|CL:NR2R:0/30-199/53/t<=3.141", 12.7 },
{ "PER|CL:NR2R:0/30-199/53/t>3.141", 7.19 },
{ "PER|CL:NR2R:0/30-199/53/u<=0.1", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/u<=0.5", 6.79 },
{ "PER|CL:NR2R:0/30-199/53/u<=1", 6.66 },
{ "PER|CL:NR2R:0/30-199/53/u<=1.3", 6.64 },
{ "PER|CL:NR2R:0/30-199/53/u<=1.5", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/u<=1.64", 7.44 },
{ "PER|CL:NR2R:0/30-199/53/u<=1.8", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/u<=1e-06", 8.08 },
{ "PER|CL:NR2R:0/30-199/53/u<=2.1", 6.77 },
{ "PER|CL:NR2R:0/30-199/53/u<=2.6", 6.79 },
{ "PER|CL:NR2R:0/30-199/53/u<=2.95", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/u<=3.1", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/v<=0.1", 8.06 },
{ "PER|CL:NR2R:0/30-199/53/v<=0.5", 6.82 },
{ "PER|CL:NR2R:0/30-199/53/v<=1", 6.66 },
{ "PER|CL:NR2R:0/30-199/53/v<=1.3", 6.67 },
{ "PER|CL:NR2R:0/30-199/53/v<=1.5", 6.89 },
{ "PER|CL:NR2R:0/30-199/53/v<=1.64", 7.39 },
{ "PER|CL:NR2R:0/30-199/53/v<=1.8", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/v<=1e-06", 8.08 },
{ "PER|CL:NR2R:0/30-199/53/v<=2.1", 6.66 },
{ "PER|CL:NR2R:0/30-199/53/v<=2.6", 6.67 },
{ "PER|CL:NR2R:0/30-199/53/v<=2.95", 6.62 },
{ "PER|CL:NR2R:0/30-199/53/v<=3.1", 12.7 },
{ "PER|CL:NR2R:0/30-199/53/v<=3.141", 12.6 },
{ "PER|CL:NR2R:0/30-199/53/v>3.141", 7.18 },
{ "PER|CL:NR2R:0/4/53/t<=0.1", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=0.5", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=1", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=1.3", 12.8 },
{ "PER|CL:NR2R:0/4/53/t<=1.5", 17.6 },
{ "PER|CL:NR2R:0/4/53/t<=1.64", 17.6 },
{ "PER|CL:NR2R:0/4/53/t<=1.8", 13 },
{ "PER|CL:NR2R:0/4/53/t<=1e-06", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=2.1", 12.8 },
{ "PER|CL:NR2R:0/4/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=2.95", 12.7 },
{ "PER|CL:NR2R:0/4/53/t<=3.1", 12.6 },
{ "PER|CL:NR2R:0/4/53/t<=3.141", 12.6 },
{ "PER|CL:NR2R:0/4/53/t>3.141", 12.6 },
{ "PER|CL:NR2R:0/4/53/u<=0.1", 12.6 },
{ "PER|CL:NR2R:0/4/53/u<=0.5", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=1.3", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=1.5", 16.3 },
{ "PER|CL:NR2R:0/4/53/u<=1.64", 13.5 },
{ "PER|CL:NR2R:0/4/53/u<=1.8", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/4/53/u<=2.1", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=2.6", 12.6 },
{ "PER|CL:NR2R:0/4/53/u<=2.95", 12.7 },
{ "PER|CL:NR2R:0/4/53/u<=3.1", 12.6 },
{ "PER|CL:NR2R:0/4/53/v<=0.1", 12.6 },
{ "PER|CL:NR2R:0/4/53/v<=0.5", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=1", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=1.3", 12.9 },
{ "PER|CL:NR2R:0/4/53/v<=1.5", 16.9 },
{ "PER|CL:NR2R:0/4/53/v<=1.64", 13.1 },
{ "PER|CL:NR2R:0/4/53/v<=1.8", 12.8 },
{ "PER|CL:NR2R:0/4/53/v<=1e-06", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=2.1", 12.6 },
{ "PER|CL:NR2R:0/4/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=2.95", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=3.1", 12.7 },
{ "PER|CL:NR2R:0/4/53/v<=3.141", 12.6 },
{ "PER|CL:NR2R:0/4/53/v>3.141", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=0.1", 14.2 },
{ "PER|CL:NR2R:0/5/53/t<=0.5", 13.9 },
{ "PER|CL:NR2R:0/5/53/t<=1", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "PER|CL:NR2R:0/5/53/t<=1.5", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=1.64", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=1.8", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=1e-06", 12.9 },
{ "PER|CL:NR2R:0/5/53/t<=2.1", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=2.95", 12.7 },
{ "PER|CL:NR2R:0/5/53/t<=3.1", 12.8 },
{ "PER|CL:NR2R:0/5/53/t<=3.141", 13.2 },
{ "PER|CL:NR2R:0/5/53/t>3.141", 13.3 },
{ "PER|CL:NR2R:0/5/53/u<=0.1", 13 },
{ "PER|CL:NR2R:0/5/53/u<=0.5", 12.6 },
{ "PER|CL:NR2R:0/5/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/5/53/u<=1.3", 12.7 },
{ "PER|CL:NR2R:0/5/53/u<=1.5", 12.7 },
{ "PER|CL:NR2R:0/5/53/u<=1.64", 12.6 },
{ "PER|CL:NR2R:0/5/53/u<=1.8", 12.6 },
{ "PER|CL:NR2R:0/5/53/u<=1e-06", 12.9 },
{ "PER|CL:NR2R:0/5/53/u<=2.1", 12.6 },
{ "PER|CL:NR2R:0/5/53/u<=2.6", 12.7 },
{ "PER|CL:NR2R:0/5/53/u<=2.95", 12.7 },
{ "PER|CL:NR2R:0/5/53/u<=3.1", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=0.1", 13.7 },
{ "PER|CL:NR2R:0/5/53/v<=0.5", 12.6 },
{ "PER|CL:NR2R:0/5/53/v<=1", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=1.3", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=1.5", 12.6 },
{ "PER|CL:NR2R:0/5/53/v<=1.64", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=1.8", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=1e-06", 12.8 },
{ "PER|CL:NR2R:0/5/53/v<=2.1", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=2.95", 12.7 },
{ "PER|CL:NR2R:0/5/53/v<=3.1", 12.6 },
{ "PER|CL:NR2R:0/5/53/v<=3.141", 15.1 },
{ "PER|CL:NR2R:0/5/53/v>3.141", 15 },
{ "PER|CL:NR2R:0/6/53/t<=0.1", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=0.5", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=1", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=1.3", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=1.5", 13.1 },
{ "PER|CL:NR2R:0/6/53/t<=1.64", 14.2 },
{ "PER|CL:NR2R:0/6/53/t<=1.8", 13 },
{ "PER|CL:NR2R:0/6/53/t<=1e-06", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=2.1", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=2.6", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=2.95", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=3.1", 12.7 },
{ "PER|CL:NR2R:0/6/53/t<=3.141", 12.6 },
{ "PER|CL:NR2R:0/6/53/t>3.141", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=0.1", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=0.5", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=1", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=1.3", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=1.5", 13.4 },
{ "PER|CL:NR2R:0/6/53/u<=1.64", 13.9 },
{ "PER|CL:NR2R:0/6/53/u<=1.8", 13 },
{ "PER|CL:NR2R:0/6/53/u<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/6/53/u<=2.1", 12.6 },
{ "PER|CL:NR2R:0/6/53/u<=2.6", 12.7 },
{ "PER|CL:NR2R:0/6/53/u<=2.95", 12.6 },
{ "PER|CL:NR2R:0/6/53/u<=3.1", 12.6 },
{ "PER|CL:NR2R:0/6/53/v<=0.1", 12.6 },
{ "PER|CL:NR2R:0/6/53/v<=0.5", 12.7 },
{ "PER|CL:NR2R:0/6/53/v<=1", 12.7 },
{ "PER|CL:NR2R:0/6/53/v<=1.3", 12.7 },
{ "PER|CL:NR2R:0/6/53/v<=1.5", 13.2 },
{ "PER|CL:NR2R:0/6/53/v<=1.64", 13.8 },
{ "PER|CL:NR2R:0/6/53/v<=1.8", 12.9 },
{ "PER|CL:NR2R:0/6/53/v<=1e-06", 12.6 },
{ "PER|CL:NR2R:0/6/53/v<=2.1", 12.7 },
{ "PER|CL:NR2R:0/6/53/v<=2.6", 12.7 },
{ "PER|CL:NR2R:0/6/53/v<=2.95", 12.6 },
{ "PER|CL:NR2R:0/6/53/v<=3.1", 12.6 },
{ "PER|CL:NR2R:0/6/53/v<=3.141", 12.6 },
{ "PER|CL:NR2R:0/6/53/v>3.141", 12.7 },
{ "PER|CL:NR2R:0/7-29/53/t<=0.1", 6.98 },
{ "PER|CL:NR2R:0/7-29/53/t<=0.5", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/t<=1", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/t<=1.3", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/t<=1.5", 6.97 },
{ "PER|CL:NR2R:0/7-29/53/t<=1.64", 7.72 },
{ "PER|CL:NR2R:0/7-29/53/t<=1.8", 6.9 },
{ "PER|CL:NR2R:0/7-29/53/t<=1e-06", 6.98 },
{ "PER|CL:NR2R:0/7-29/53/t<=2.1", 6.78 },
{ "PER|CL:NR2R:0/7-29/53/t<=2.6", 7.65 },
{ "PER|CL:NR2R:0/7-29/53/t<=2.95", 11 },
{ "PER|CL:NR2R:0/7-29/53/t<=3.1", 37.3 },
{ "PER|CL:NR2R:0/7-29/53/t<=3.141", 78.4 },
{ "PER|CL:NR2R:0/7-29/53/t>3.141", 130 },
{ "PER|CL:NR2R:0/7-29/53/u<=0.1", 6.95 },
{ "PER|CL:NR2R:0/7-29/53/u<=0.5", 6.66 },
{ "PER|CL:NR2R:0/7-29/53/u<=1", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/u<=1.3", 6.66 },
{ "PER|CL:NR2R:0/7-29/53/u<=1.5", 6.73 },
{ "PER|CL:NR2R:0/7-29/53/u<=1.64", 7.41 },
{ "PER|CL:NR2R:0/7-29/53/u<=1.8", 12.7 },
{ "PER|CL:NR2R:0/7-29/53/u<=1e-06", 6.92 },
{ "PER|CL:NR2R:0/7-29/53/u<=2.1", 6.69 },
{ "PER|CL:NR2R:0/7-29/53/u<=2.6", 6.84 },
{ "PER|CL:NR2R:0/7-29/53/u<=2.95", 13.2 },
{ "PER|CL:NR2R:0/7-29/53/u<=3.1", 30.6 },
{ "PER|CL:NR2R:0/7-29/53/v<=0.1", 6.99 },
{ "PER|CL:NR2R:0/7-29/53/v<=0.5", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/v<=1", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/v<=1.3", 6.67 },
{ "PER|CL:NR2R:0/7-29/53/v<=1.5", 6.8 },
{ "PER|CL:NR2R:0/7-29/53/v<=1.64", 8.24 },
{ "PER|CL:NR2R:0/7-29/53/v<=1.8", 6.83 },
{ "PER|CL:NR2R:0/7-29/53/v<=1e-06", 6.83 },
{ "PER|CL:NR2R:0/7-29/53/v<=2.1", 6.65 },
{ "PER|CL:NR2R:0/7-29/53/v<=2.6", 6.87 },
{ "PER|CL:NR2R:0/7-29/53/v<=2.95", 8.34 },
{ "PER|CL:NR2R:0/7-29/53/v<=3.1", 28.2 },
{ "PER|CL:NR2R:0/7-29/53/v<=3.141", 61.5 },
{ "PER|CL:NR2R:0/7-29/53/v>3.141", 101 },
{ "PER|CL:R2R:1//53/t<=0.1", 6.96 },
{ "PER|CL:R2R:1//53/t<=0.5", 6.96 },
{ "PER|CL:R2R:1//53/t<=1", 6.9 },
{ "PER|CL:R2R:1//53/t<=1.3", 7.1 },
{ "PER|CL:R2R:1//53/t<=1.5", 6.93 },
{ "PER|CL:R2R:1//53/t<=1.64", 6.86 },
{ "PER|CL:R2R:1//53/t<=1.8", 6.81 },
{ "PER|CL:R2R:1//53/t<=1e-06", 7 },
{ "PER|CL:R2R:1//53/t<=2.1", 6.94 },
{ "PER|CL:R2R:1//53/t<=2.6", 6.99 },
{ "PER|CL:R2R:1//53/t<=2.95", 7.18 },
{ "PER|CL:R2R:1//53/t<=3.1", 7.35 },
{ "PER|CL:R2R:1//53/t<=3.141", 12.7 },
{ "PER|CL:R2R:1//53/t>3.141", 7.4 },
{ "PER|CL:R2R:1//53/u<=0.1", 12.7 },
{ "PER|CL:R2R:1//53/u<=0.5", 6.64 },
{ "PER|CL:R2R:1//53/u<=1", 6.65 },
{ "PER|CL:R2R:1//53/u<=1.3", 6.66 },
{ "PER|CL:R2R:1//53/u<=1.5", 12.7 },
{ "PER|CL:R2R:1//53/u<=1.64", 6.65 },
{ "PER|CL:R2R:1//53/u<=1.8", 12.7 },
{ "PER|CL:R2R:1//53/u<=1e-06", 12.6 },
{ "PER|CL:R2R:1//53/u<=2.1", 6.9 },
{ "PER|CL:R2R:1//53/u<=2.6", 7.08 },
{ "PER|CL:R2R:1//53/u<=2.95", 7.23 },
{ "PER|CL:R2R:1//53/u<=3.1", 12.9 },
{ "PER|CL:R2R:1//53/v<=0.1", 6.66 },
{ "PER|CL:R2R:1//53/v<=0.5", 6.65 },
{ "PER|CL:R2R:1//53/v<=1", 6.64 },
{ "PER|CL:R2R:1//53/v<=1.3", 6.64 },
{ "PER|CL:R2R:1//53/v<=1.5", 6.67 },
{ "PER|CL:R2R:1//53/v<=1.64", 6.66 },
{ "PER|CL:R2R:1//53/v<=1.8", 6.66 },
{ "PER|CL:R2R:1//53/v<=1e-06", 6.64 },
{ "PER|CL:R2R:1//53/v<=2.1", 6.67 },
{ "PER|CL:R2R:1//53/v<=2.6", 6.67 },
{ "PER|CL:R2R:1//53/v<=2.95", 6.9 },
{ "PER|CL:R2R:1//53/v<=3.1", 7.2 },
{ "PER|CL:R2R:1//53/v<=3.141", 12.7 },
{ "PER|CL:R2R:1//53/v>3.141", 7.41 },
{ "PER|CL:R2R:2//53/t<=0.1", 7.71 },
{ "PER|CL:R2R:2//53/t<=0.5", 7 },
{ "PER|CL:R2R:2//53/t<=1", 7.6 },
{ "PER|CL:R2R:2//53/t<=1.3", 8.2 },
{ "PER|CL:R2R:2//53/t<=1.5", 7.73 },
{ "PER|CL:R2R:2//53/t<=1.64", 8.86 },
{ "PER|CL:R2R:2//53/t<=1.8", 8.62 },
{ "PER|CL:R2R:2//53/t<=1e-06", 6.66 },
{ "PER|CL:R2R:2//53/t<=2.1", 8.46 },
{ "PER|CL:R2R:2//53/t<=2.6", 8.04 },
{ "PER|CL:R2R:2//53/t<=2.95", 7.07 },
{ "PER|CL:R2R:2//53/t<=3.1", 6.96 },
{ "PER|CL:R2R:2//53/t<=3.141", 12.7 },
{ "PER|CL:R2R:2//53/t>3.141", 6.92 },
{ "PER|CL:R2R:2//53/u<=0.1", 6.63 },
{ "PER|CL:R2R:2//53/u<=0.5", 6.67 },
{ "PER|CL:R2R:2//53/u<=1", 8.21 },
{ "PER|CL:R2R:2//53/u<=1.3", 7.96 },
{ "PER|CL:R2R:2//53/u<=1.5", 7.04 },
{ "PER|CL:R2R:2//53/u<=1.64", 7.67 },
{ "PER|CL:R2R:2//53/u<=1.8", 7.43 },
{ "PER|CL:R2R:2//53/u<=1e-06", 6.62 },
{ "PER|CL:R2R:2//53/u<=2.1", 7.74 },
{ "PER|CL:R2R:2//53/u<=2.6", 7.64 },
{ "PER|CL:R2R:2//53/u<=2.95", 7.25 },
{ "PER|CL:R2R:2//53/u<=3.1", 12.7 },
{ "PER|CL:R2R:2//53/v<=0.1", 6.69 },
{ "PER|CL:R2R:2//53/v<=0.5", 6.67 },
{ "PER|CL:R2R:2//53/v<=1", 7.95 },
{ "PER|CL:R2R:2//53/v<=1.3", 7.98 },
{ "PER|CL:R2R:2//53/v<=1.5", 6.95 },
{ "PER|CL:R2R:2//53/v<=1.64", 6.66 },
{ "PER|CL:R2R:2//53/v<=1.8", 7.09 },
{ "PER|CL:R2R:2//53/v<=1e-06", 6.65 },
{ "PER|CL:R2R:2//53/v<=2.1", 7 },
{ "PER|CL:R2R:2//53/v<=2.6", 6.88 },
{ "PER|CL:R2R:2//53/v<=2.95", 6.62 },
{ "PER|CL:R2R:2//53/v<=3.1", 6.64 },
{ "PER|CL:R2R:2//53/v<=3.141", 6.62 },
{ "PER|CL:R2R:2//53/v>3.141", 6.66 },
{ "PER|CL:R2R:2//64/t<=0.1", 7.78 },
{ "PER|CL:R2R:2//64/t<=0.5", 8.05 },
{ "PER|CL:R2R:2//64/t<=1", 8.7 },
{ "PER|CL:R2R:2//64/t<=1.3", 8.31 },
{ "PER|CL:R2R:2//64/t<=1.5", 7.75 },
{ "PER|CL:R2R:2//64/t<=1.64", 13.7 },
{ "PER|CL:R2R:2//64/t<=1.8", 12.8 },
{ "PER|CL:R2R:2//64/t<=1e-06", 6.66 },
{ "PER|CL:R2R:2//64/t<=2.1", 8.67 },
{ "PER|CL:R2R:2//64/t<=2.6", 7.96 },
{ "PER|CL:R2R:2//64/t<=2.95", 7.09 },
{ "PER|CL:R2R:2//64/t<=3.1", 6.61 },
{ "PER|CL:R2R:2//64/t<=3.141", 12.6 },
{ "PER|CL:R2R:2//64/t>3.141", 6.62 },
{ "PER|CL:R2R:2//64/u<=0.1", 12.6 },
{ "PER|CL:R2R:2//64/u<=0.5", 6.64 },
{ "PER|CL:R2R:2//64/u<=1", 8.14 },
{ "PER|CL:R2R:2//64/u<=1.3", 7.94 },
{ "PER|CL:R2R:2//64/u<=1.5", 12.6 },
{ "PER|CL:R2R:2//64/u<=1.64", 8.99 },
{ "PER|CL:R2R:2//64/u<=1.8", 12.6 },
{ "PER|CL:R2R:2//64/u<=1e-06", 6.62 },
{ "PER|CL:R2R:2//64/u<=2.1", 7.58 },
{ "PER|CL:R2R:2//64/u<=2.6", 7.41 },
{ "PER|CL:R2R:2//64/u<=2.95", 6.82 },
{ "PER|CL:R2R:2//64/u<=3.1", 12.6 },
{ "PER|CL:R2R:2//64/v<=0.1", 6.63 },
{ "PER|CL:R2R:2//64/v<=0.5", 6.62 },
{ "PER|CL:R2R:2//64/v<=1", 8.08 },
{ "PER|CL:R2R:2//64/v<=1.3", 7.95 },
{ "PER|CL:R2R:2//64/v<=1.5", 6.91 },
{ "PER|CL:R2R:2//64/v<=1.64", 8.01 },
{ "PER|CL:R2R:2//64/v<=1.8", 7.57 },
{ "PER|CL:R2R:2//64/v<=1e-06", 6.63 },
{ "PER|CL:R2R:2//64/v<=2.1", 6.92 },
{ "PER|CL:R2R:2//64/v<=2.6", 6.77 },
{ "PER|CL:R2R:2//64/v<=2.95", 6.63 },
{ "PER|CL:R2R:2//64/v<=3.1", 6.62 },
{ "PER|CL:R2R:2//64/v<=3.141", 12.6 },
{ "PER|CL:R2R:2//64/v>3.141", 6.64 },
{ "PER|CL:R2R:3//53/t<=0.1", 7.21 },
{ "PER|CL:R2R:3//53/t<=0.5", 6.65 },
{ "PER|CL:R2R:3//53/t<=1", 6.97 },
{ "PER|CL:R2R:3//53/t<=1.3", 9.52 },
{ "PER|CL:R2R:3//53/t<=1.5", 11.6 },
{ "PER|CL:R2R:3//53/t<=1.64", 11.7 },
{ "PER|CL:R2R:3//53/t<=1.8", 7.39 },
{ "PER|CL:R2R:3//53/t<=1e-06", 6.82 },
{ "PER|CL:R2R:3//53/t<=2.1", 7.73 },
{ "PER|CL:R2R:3//53/t<=2.6", 7.95 },
{ "PER|CL:R2R:3//53/t<=2.95", 9.37 },
{ "PER|CL:R2R:3//53/t<=3.1", 11.8 },
{ "PER|CL:R2R:3//53/t<=3.141", 14.3 },
{ "PER|CL:R2R:3//53/t>3.141", 12 },
{ "PER|CL:R2R:3//53/u<=0.1", 7.2 },
{ "PER|CL:R2R:3//53/u<=0.5", 6.66 },
{ "PER|CL:R2R:3//53/u<=1", 6.66 },
{ "PER|CL:R2R:3//53/u<=1.3", 6.99 },
{ "PER|CL:R2R:3//53/u<=1.5", 7.31 },
{ "PER|CL:R2R:3//53/u<=1.64", 7.56 },
{ "PER|CL:R2R:3//53/u<=1.8", 6.66 },
{ "PER|CL:R2R:3//53/u<=1e-06", 7.2 },
{ "PER|CL:R2R:3//53/u<=2.1", 7.29 },
{ "PER|CL:R2R:3//53/u<=2.6", 7.59 },
{ "PER|CL:R2R:3//53/u<=2.95", 9.06 },
{ "PER|CL:R2R:3//53/u<=3.1", 13.1 },
{ "PER|CL:R2R:3//53/v<=0.1", 7.2 },
{ "PER|CL:R2R:3//53/v<=0.5", 6.66 },
{ "PER|CL:R2R:3//53/v<=1", 6.67 },
{ "PER|CL:R2R:3//53/v<=1.3", 6.92 },
{ "PER|CL:R2R:3//53/v<=1.5", 7.04 },
{ "PER|CL:R2R:3//53/v<=1.64", 6.65 },
{ "PER|CL:R2R:3//53/v<=1.8", 6.66 },
{ "PER|CL:R2R:3//53/v<=1e-06", 7.2 },
{ "PER|CL:R2R:3//53/v<=2.1", 6.74 },
{ "PER|CL:R2R:3//53/v<=2.6", 6.83 },
{ "PER|CL:R2R:3//53/v<=2.95", 7.97 },
{ "PER|CL:R2R:3//53/v<=3.1", 9.36 },
{ "PER|CL:R2R:3//53/v<=3.141", 12.5 },
{ "PER|CL:R2R:3//53/v>3.141", 12.8 },
{ "PER|CL:R2R:3//64/t<=0.1", 7.33 },
{ "PER|CL:R2R:3//64/t<=0.5", 7.71 },
{ "PER|CL:R2R:3//64/t<=1", 9.04 },
{ "PER|CL:R2R:3//64/t<=1.3", 10.4 },
{ "PER|CL:R2R:3//64/t<=1.5", 15.8 },
{ "PER|CL:R2R:3//64/t<=1.64", 190 },
{ "PER|CL:R2R:3//64/t<=1.8", 76 },
{ "PER|CL:R2R:3//64/t<=1e-06", 6.64 },
{ "PER|CL:R2R:3//64/t<=2.1", 9.8 },
{ "PER|CL:R2R:3//64/t<=2.6", 8.29 },
{ "PER|CL:R2R:3//64/t<=2.95", 9.55 },
{ "PER|CL:R2R:3//64/t<=3.1", 10.7 },
{ "PER|CL:R2R:3//64/t<=3.141", 17.4 },
{ "PER|CL:R2R:3//64/t>3.141", 13 },
{ "PER|CL:R2R:3//64/u<=0.1", 12.8 },
{ "PER|CL:R2R:3//64/u<=0.5", 6.63 },
{ "PER|CL:R2R:3//64/u<=1", 6.72 },
{ "PER|CL:R2R:3//64/u<=1.3", 7.11 },
{ "PER|CL:R2R:3//64/u<=1.5", 12.6 },
{ "PER|CL:R2R:3//64/u<=1.64", 67.1 },
{ "PER|CL:R2R:3//64/u<=1.8", 34.5 },
{ "PER|CL:R2R:3//64/u<=1e-06", 7.29 },
{ "PER|CL:R2R:3//64/u<=2.1", 7.68 },
{ "PER|CL:R2R:3//64/u<=2.6", 8.06 },
{ "PER|CL:R2R:3//64/u<=2.95", 9.69 },
{ "PER|CL:R2R:3//64/u<=3.1", 13.1 },
{ "PER|CL:R2R:3//64/v<=0.1", 7.29 },
{ "PER|CL:R2R:3//64/v<=0.5", 6.66 },
{ "PER|CL:R2R:3//64/v<=1", 6.78 },
{ "PER|CL:R2R:3//64/v<=1.3", 6.95 },
{ "PER|CL:R2R:3//64/v<=1.5", 7.54 },
{ "PER|CL:R2R:3//64/v<=1.64", 40.4 },
{ "PER|CL:R2R:3//64/v<=1.8", 16.1 },
{ "PER|CL:R2R:3//64/v<=1e-06", 7.29 },
{ "PER|CL:R2R:3//64/v<=2.1", 6.93 },
{ "PER|CL:R2R:3//64/v<=2.6", 7.04 },
{ "PER|CL:R2R:3//64/v<=2.95", 8.03 },
{ "PER|CL:R2R:3//64/v<=3.1", 9.18 },
{ "PER|CL:R2R:3//64/v<=3.141", 13.8 },
{ "PER|CL:R2R:3//64/v>3.141", 11.9 },
{ "PER|CL:R2R:4//53/t<=0.1", 7.07 },
{ "PER|CL:R2R:4//53/t<=0.5", 6.67 },
{ "PER|CL:R2R:4//53/t<=1", 6.94 },
{ "PER|CL:R2R:4//53/t<=1.3", 9.54 },
{ "PER|CL:R2R:4//53/t<=1.5", 14.7 },
{ "PER|CL:R2R:4//53/t<=1.64", 14.6 },
{ "PER|CL:R2R:4//53/t<=1.8", 9.76 },
{ "PER|CL:R2R:4//53/t<=1e-06", 6.67 },
{ "PER|CL:R2R:4//53/t<=2.1", 8.84 },
{ "PER|CL:R2R:4//53/t<=2.6", 7.97 },
{ "PER|CL:R2R:4//53/t<=2.95", 7.09 },
{ "PER|CL:R2R:4//53/t<=3.1", 6.96 },
{ "PER|CL:R2R:4//53/t<=3.141", 12.6 },
{ "PER|CL:R2R:4//53/t>3.141", 6.92 },
{ "PER|CL:R2R:4//53/u<=0.1", 6.64 },
{ "PER|CL:R2R:4//53/u<=0.5", 6.66 },
{ "PER|CL:R2R:4//53/u<=1", 6.9 },
{ "PER|CL:R2R:4//53/u<=1.3", 8.31 },
{ "PER|CL:R2R:4//53/u<=1.5", 13.6 },
{ "PER|CL:R2R:4//53/u<=1.64", 11.3 },
{ "PER|CL:R2R:4//53/u<=1.8", 8.47 },
{ "PER|CL:R2R:4//53/u<=1e-06", 6.63 },
{ "PER|CL:R2R:4//53/u<=2.1", 7.61 },
{ "PER|CL:R2R:4//53/u<=2.6", 7.51 },
{ "PER|CL:R2R:4//53/u<=2.95", 7.29 },
{ "PER|CL:R2R:4//53/u<=3.1", 12.6 },
{ "PER|CL:R2R:4//53/v<=0.1", 6.64 },
{ "PER|CL:R2R:4//53/v<=0.5", 6.65 },
{ "PER|CL:R2R:4//53/v<=1", 6.66 },
{ "PER|CL:R2R:4//53/v<=1.3", 7.56 },
{ "PER|CL:R2R:4//53/v<=1.5", 14.1 },
{ "PER|CL:R2R:4//53/v<=1.64", 8.62 },
{ "PER|CL:R2R:4//53/v<=1.8", 7.58 },
{ "PER|CL:R2R:4//53/v<=1e-06", 6.66 },
{ "PER|CL:R2R:4//53/v<=2.1", 7.08 },
{ "PER|CL:R2R:4//53/v<=2.6", 6.85 },
{ "PER|CL:R2R:4//53/v<=2.95", 6.66 },
{ "PER|CL:R2R:4//53/v<=3.1", 6.65 },
{ "PER|CL:R2R:4//53/v<=3.141", 6.63 },
{ "PER|CL:R2R:4//53/v>3.141", 6.66 },
{ "PER|CL:R2R:4//64/t<=0.1", 7.14 },
{ "PER|CL:R2R:4//64/t<=0.5", 7.35 },
{ "PER|CL:R2R:4//64/t<=1", 8.09 },
{ "PER|CL:R2R:4//64/t<=1.3", 9.26 },
{ "PER|CL:R2R:4//64/t<=1.5", 14.5 },
{ "PER|CL:R2R:4//64/t<=1.64", 80.9 },
{ "PER|CL:R2R:4//64/t<=1.8", 34.9 },
{ "PER|CL:R2R:4//64/t<=1e-06", 6.64 },
{ "PER|CL:R2R:4//64/t<=2.1", 10 },
{ "PER|CL:R2R:4//64/t<=2.6", 8.71 },
{ "PER|CL:R2R:4//64/t<=2.95", 7.4 },
{ "PER|CL:R2R:4//64/t<=3.1", 6.63 },
{ "PER|CL:R2R:4//64/t<=3.141", 12.6 },
{ "PER|CL:R2R:4//64/t>3.141", 6.64 },
{ "PER|CL:R2R:4//64/u<=0.1", 12.6 },
{ "PER|CL:R2R:4//64/u<=0.5", 6.63 },
{ "PER|CL:R2R:4//64/u<=1", 6.73 },
{ "PER|CL:R2R:4//64/u<=1.3", 8.01 },
{ "PER|CL:R2R:4//64/u<=1.5", 15.5 },
{ "PER|CL:R2R:4//64/u<=1.64", 57.8 },
{ "PER|CL:R2R:4//64/u<=1.8", 29 },
{ "PER|CL:R2R:4//64/u<=1e-06", 6.64 },
{ "PER|CL:R2R:4//64/u<=2.1", 8.26 },
{ "PER|CL:R2R:4//64/u<=2.6", 7.4 },
{ "PER|CL:R2R:4//64/u<=2.95", 6.84 },
{ "PER|CL:R2R:4//64/u<=3.1", 12.6 },
{ "PER|CL:R2R:4//64/v<=0.1", 6.62 },
{ "PER|CL:R2R:4//64/v<=0.5", 6.62 },
{ "PER|CL:R2R:4//64/v<=1", 6.64 },
{ "PER|CL:R2R:4//64/v<=1.3", 7.72 },
{ "PER|CL:R2R:4//64/v<=1.5", 11.9 },
{ "PER|CL:R2R:4//64/v<=1.64", 44.6 },
{ "PER|CL:R2R:4//64/v<=1.8", 17.4 },
{ "PER|CL:R2R:4//64/v<=1e-06", 6.64 },
{ "PER|CL:R2R:4//64/v<=2.1", 7.72 },
{ "PER|CL:R2R:4//64/v<=2.6", 7.09 },
{ "PER|CL:R2R:4//64/v<=2.95", 6.64 },
{ "PER|CL:R2R:4//64/v<=3.1", 6.62 },
{ "PER|CL:R2R:4//64/v<=3.141", 12.6 },
{ "PER|CL:R2R:4//64/v>3.141", 6.64 },
{ "PER|CL:R2R:5//53/t<=0.1", 11.8 },
{ "PER|CL:R2R:5//53/t<=0.5", 9.61 },
{ "PER|CL:R2R:5//53/t<=1", 7.59 },
{ "PER|CL:R2R:5//53/t<=1.3", 7.98 },
{ "PER|CL:R2R:5//53/t<=1.5", 7.77 },
{ "PER|CL:R2R:5//53/t<=1.64", 7.87 },
{ "PER|CL:R2R:5//53/t<=1.8", 7.46 },
{ "PER|CL:R2R:5//53/t<=1e-06", 7.9 },
{ "PER|CL:R2R:5//53/t<=2.1", 7.64 },
{ "PER|CL:R2R:5//53/t<=2.6", 7.79 },
{ "PER|CL:R2R:5//53/t<=2.95", 9 },
{ "PER|CL:R2R:5//53/t<=3.1", 10.4 },
{ "PER|CL:R2R:5//53/t<=3.141", 13.2 },
{ "PER|CL:R2R:5//53/t>3.141", 11.1 },
{ "PER|CL:R2R:5//53/u<=0.1", 10.8 },
{ "PER|CL:R2R:5//53/u<=0.5", 8.65 },
{ "PER|CL:R2R:5//53/u<=1", 6.77 },
{ "PER|CL:R2R:5//53/u<=1.3", 6.66 },
{ "PER|CL:R2R:5//53/u<=1.5", 6.65 },
{ "PER|CL:R2R:5//53/u<=1.64", 6.64 },
{ "PER|CL:R2R:5//53/u<=1.8", 6.65 },
{ "PER|CL:R2R:5//53/u<=1e-06", 8.9 },
{ "PER|CL:R2R:5//53/u<=2.1", 7.29 },
{ "PER|CL:R2R:5//53/u<=2.6", 7.74 },
{ "PER|CL:R2R:5//53/u<=2.95", 8.84 },
{ "PER|CL:R2R:5//53/u<=3.1", 12.7 },
{ "PER|CL:R2R:5//53/v<=0.1", 11.4 },
{ "PER|CL:R2R:5//53/v<=0.5", 8.22 },
{ "PER|CL:R2R:5//53/v<=1", 6.66 },
{ "PER|CL:R2R:5//53/v<=1.3", 6.66 },
{ "PER|CL:R2R:5//53/v<=1.5", 6.65 },
{ "PER|CL:R2R:5//53/v<=1.64", 6.66 },
{ "PER|CL:R2R:5//53/v<=1.8", 6.66 },
{ "PER|CL:R2R:5//53/v<=1e-06", 8.9 },
{ "PER|CL:R2R:5//53/v<=2.1", 6.74 },
{ "PER|CL:R2R:5//53/v<=2.6", 6.84 },
{ "PER|CL:R2R:5//53/v<=2.95", 7.66 },
{ "PER|CL:R2R:5//53/v<=3.1", 8.74 },
{ "PER|CL:R2R:5//53/v<=3.141", 12.6 },
{ "PER|CL:R2R:5//53/v>3.141", 12.5 },
{ "PER|CL:R2R:5//64/t<=0.1", 12.8 },
{ "PER|CL:R2R:5//64/t<=0.5", 12.5 },
{ "PER|CL:R2R:5//64/t<=1", 8.88 },
{ "PER|CL:R2R:5//64/t<=1.3", 8.04 },
{ "PER|CL:R2R:5//64/t<=1.5", 8.12 },
{ "PER|CL:R2R:5//64/t<=1.64", 306 },
{ "PER|CL:R2R:5//64/t<=1.8", 73.3 },
{ "PER|CL:R2R:5//64/t<=1e-06", 7.5 },
{ "PER|CL:R2R:5//64/t<=2.1", 9.49 },
{ "PER|CL:R2R:5//64/t<=2.6", 8.04 },
{ "PER|CL:R2R:5//64/t<=2.95", 9.32 },
{ "PER|CL:R2R:5//64/t<=3.1", 10.5 },
{ "PER|CL:R2R:5//64/t<=3.141", 15.3 },
{ "PER|CL:R2R:5//64/t>3.141", 12.1 },
{ "PER|CL:R2R:5//64/u<=0.1", 12.8 },
{ "PER|CL:R2R:5//64/u<=0.5", 8.7 },
{ "PER|CL:R2R:5//64/u<=1", 6.76 },
{ "PER|CL:R2R:5//64/u<=1.3", 6.62 },
{ "PER|CL:R2R:5//64/u<=1.5", 12.6 },
{ "PER|CL:R2R:5//64/u<=1.64", 92.9 },
{ "PER|CL:R2R:5//64/u<=1.8", 33.5 },
{ "PER|CL:R2R:5//64/u<=1e-06", 8.42 },
{ "PER|CL:R2R:5//64/u<=2.1", 7.37 },
{ "PER|CL:R2R:5//64/u<=2.6", 7.86 },
{ "PER|CL:R2R:5//64/u<=2.95", 9 },
{ "PER|CL:R2R:5//64/u<=3.1", 13.1 },
{ "PER|CL:R2R:5//64/v<=0.1", 9.91 },
{ "PER|CL:R2R:5//64/v<=0.5", 8.46 },
{ "PER|CL:R2R:5//64/v<=1", 6.78 },
{ "PER|CL:R2R:5//64/v<=1.3", 6.63 },
{ "PER|CL:R2R:5//64/v<=1.5", 6.6 },
{ "PER|CL:R2R:5//64/v<=1.64", 57.8 },
{ "PER|CL:R2R:5//64/v<=1.8", 15.7 },
{ "PER|CL:R2R:5//64/v<=1e-06", 8.47 },
{ "PER|CL:R2R:5//64/v<=2.1", 6.79 },
{ "PER|CL:R2R:5//64/v<=2.6", 6.87 },
{ "PER|CL:R2R:5//64/v<=2.95", 7.74 },
{ "PER|CL:R2R:5//64/v<=3.1", 9.27 },
{ "PER|CL:R2R:5//64/v<=3.141", 13.2 },
{ "PER|CL:R2R:5//64/v>3.141", 13.6 },
{ "PER|CL:R2R:6//53/t<=0.1", 8.53 },
{ "PER|CL:R2R:6//53/t<=0.5", 8.18 },
{ "PER|CL:R2R:6//53/t<=1", 7.77 },
{ "PER|CL:R2R:6//53/t<=1.3", 9.02 },
{ "PER|CL:R2R:6//53/t<=1.5", 10.8 },
{ "PER|CL:R2R:6//53/t<=1.64", 11.8 },
{ "PER|CL:R2R:6//53/t<=1.8", 9.42 },
{ "PER|CL:R2R:6//53/t<=1e-06", 6.73 },
{ "PER|CL:R2R:6//53/t<=2.1", 8.5 },
{ "PER|CL:R2R:6//53/t<=2.6", 8.06 },
{ "PER|CL:R2R:6//53/t<=2.95", 7.13 },
{ "PER|CL:R2R:6//53/t<=3.1", 6.96 },
{ "PER|CL:R2R:6//53/t<=3.141", 12.6 },
{ "PER|CL:R2R:6//53/t>3.141", 6.92 },
{ "PER|CL:R2R:6//53/u<=0.1", 6.66 },
{ "PER|CL:R2R:6//53/u<=0.5", 6.66 },
{ "PER|CL:R2R:6//53/u<=1", 6.93 },
{ "PER|CL:R2R:6//53/u<=1.3", 7.67 },
{ "PER|CL:R2R:6//53/u<=1.5", 9.37 },
{ "PER|CL:R2R:6//53/u<=1.64", 11 },
{ "PER|CL:R2R:6//53/u<=1.8", 8.65 },
{ "PER|CL:R2R:6//53/u<=1e-06", 6.63 },
{ "PER|CL:R2R:6//53/u<=2.1", 7.8 },
{ "PER|CL:R2R:6//53/u<=2.6", 7.66 },
{ "PER|CL:R2R:6//53/u<=2.95", 7.33 },
{ "PER|CL:R2R:6//53/u<=3.1", 12.6 },
{ "PER|CL:R2R:6//53/v<=0.1", 6.65 },
{ "PER|CL:R2R:6//53/v<=0.5", 6.66 },
{ "PER|CL:R2R:6//53/v<=1", 6.66 },
{ "PER|CL:R2R:6//53/v<=1.3", 7.39 },
{ "PER|CL:R2R:6//53/v<=1.5", 8.93 },
{ "PER|CL:R2R:6//53/v<=1.64", 9.01 },
{ "PER|CL:R2R:6//53/v<=1.8", 8.01 },
{ "PER|CL:R2R:6//53/v<=1e-06", 6.65 },
{ "PER|CL:R2R:6//53/v<=2.1", 7.04 },
{ "PER|CL:R2R:6//53/v<=2.6", 6.94 },
{ "PER|CL:R2R:6//53/v<=2.95", 6.65 },
{ "PER|CL:R2R:6//53/v<=3.1", 6.65 },
{ "PER|CL:R2R:6//53/v<=3.141", 6.59 },
{ "PER|CL:R2R:6//53/v>3.141", 6.66 },
{ "PER|CL:R2R:6//64/t<=0.1", 8.69 },
{ "PER|CL:R2R:6//64/t<=0.5", 8.89 },
{ "PER|CL:R2R:6//64/t<=1", 8.6 },
{ "PER|CL:R2R:6//64/t<=1.3", 9.61 },
{ "PER|CL:R2R:6//64/t<=1.5", 13.6 },
{ "PER|CL:R2R:6//64/t<=1.64", 856 },
{ "PER|CL:R2R:6//64/t<=1.8", 308 },
{ "PER|CL:R2R:6//64/t<=1e-06", 6.64 },
{ "PER|CL:R2R:6//64/t<=2.1", 23 },
{ "PER|CL:R2R:6//64/t<=2.6", 8.87 },
{ "PER|CL:R2R:6//64/t<=2.95", 7.45 },
{ "PER|CL:R2R:6//64/t<=3.1", 6.63 },
{ "PER|CL:R2R:6//64/t<=3.141", 12.6 },
{ "PER|CL:R2R:6//64/t>3.141", 6.61 },
{ "PER|CL:R2R:6//64/u<=0.1", 12.6 },
{ "PER|CL:R2R:6//64/u<=0.5", 6.64 },
{ "PER|CL:R2R:6//64/u<=1", 6.89 },
{ "PER|CL:R2R:6//64/u<=1.3", 8.15 },
{ "PER|CL:R2R:6//64/u<=1.5", 13.1 },
{ "PER|CL:R2R:6//64/u<=1.64", 839 },
{ "PER|CL:R2R:6//64/u<=1.8", 221 },
{ "PER|CL:R2R:6//64/u<=1e-06", 6.6 },
{ "PER|CL:R2R:6//64/u<=2.1", 17.6 },
{ "PER|CL:R2R:6//64/u<=2.6", 7.61 },
{ "PER|CL:R2R:6//64/u<=2.95", 6.94 },
{ "PER|CL:R2R:6//64/u<=3.1", 12.6 },
{ "PER|CL:R2R:6//64/v<=0.1", 6.6 },
{ "PER|CL:R2R:6//64/v<=0.5", 6.64 },
{ "PER|CL:R2R:6//64/v<=1", 6.76 },
{ "PER|CL:R2R:6//64/v<=1.3", 7.69 },
{ "PER|CL:R2R:6//64/v<=1.5", 9.42 },
{ "PER|CL:R2R:6//64/v<=1.64", 739 },
{ "PER|CL:R2R:6//64/v<=1.8", 129 },
{ "PER|CL:R2R:6//64/v<=1e-06", 6.62 },
{ "PER|CL:R2R:6//64/v<=2.1", 9.78 },
{ "PER|CL:R2R:6//64/v<=2.6", 7.21 },
{ "PER|CL:R2R:6//64/v<=2.95", 6.63 },
{ "PER|CL:R2R:6//64/v<=3.1", 6.6 },
{ "PER|CL:R2R:6//64/v<=3.141", 12.6 },
{ "PER|CL:R2R:6//64/v>3.141", 6.62 },
{ "PER|SL:NR2R:0/1/53/t<=0.1", 12.7 },
{ "PER|SL:NR2R:0/1/53/t<=0.5", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=1", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=1.3", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=1.5", 12.7 },
{ "PER|SL:NR2R:0/1/53/t<=1.64", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=1.8", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=2.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=2.6", 12.7 },
{ "PER|SL:NR2R:0/1/53/t<=2.95", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=3.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/t<=3.141", 12.5 },
{ "PER|SL:NR2R:0/1/53/t>3.141", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=0.5", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1.3", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1.5", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1.64", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=1e-06", 12.5 },
{ "PER|SL:NR2R:0/1/53/u<=2.1", 12.5 },
{ "PER|SL:NR2R:0/1/53/u<=2.6", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=2.95", 12.6 },
{ "PER|SL:NR2R:0/1/53/u<=3.1", 12.4 },
{ "PER|SL:NR2R:0/1/53/v<=0.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=1.3", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=1.5", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=1.64", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=1.8", 12.7 },
{ "PER|SL:NR2R:0/1/53/v<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=2.6", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=2.95", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=3.1", 12.6 },
{ "PER|SL:NR2R:0/1/53/v<=3.141", 12.6 },
{ "PER|SL:NR2R:0/1/53/v>3.141", 12.7 },
{ "PER|SL:NR2R:0/2/53/t<=0.1", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=0.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1.3", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1.64", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1.8", 12.6 },
{ "PER|SL:NR2R:0/2/53/t<=1e-06", 12.7 },
{ "PER|SL:NR2R:0/2/53/t<=2.1", 13.2 },
{ "PER|SL:NR2R:0/2/53/t<=2.6", 12.7 },
{ "PER|SL:NR2R:0/2/53/t<=2.95", 12.9 },
{ "PER|SL:NR2R:0/2/53/t<=3.1", 13.4 },
{ "PER|SL:NR2R:0/2/53/t<=3.141", 14 },
{ "PER|SL:NR2R:0/2/53/t>3.141", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=0.1", 12.5 },
{ "PER|SL:NR2R:0/2/53/u<=0.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=1", 12.7 },
{ "PER|SL:NR2R:0/2/53/u<=1.3", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=1.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=1.64", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=2.1", 12.6 },
{ "PER|SL:NR2R:0/2/53/u<=2.6", 12.7 },
{ "PER|SL:NR2R:0/2/53/u<=2.95", 12.7 },
{ "PER|SL:NR2R:0/2/53/u<=3.1", 13.1 },
{ "PER|SL:NR2R:0/2/53/v<=0.1", 12.7 },
{ "PER|SL:NR2R:0/2/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=1.3", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=1.5", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=1.64", 12.7 },
{ "PER|SL:NR2R:0/2/53/v<=1.8", 12.5 },
{ "PER|SL:NR2R:0/2/53/v<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=2.6", 12.6 },
{ "PER|SL:NR2R:0/2/53/v<=2.95", 13 },
{ "PER|SL:NR2R:0/2/53/v<=3.1", 13.2 },
{ "PER|SL:NR2R:0/2/53/v<=3.141", 14.3 },
{ "PER|SL:NR2R:0/2/53/v>3.141", 13.7 },
{ "PER|SL:NR2R:0/200+/53/t<=0.1", 6.66 },
{ "PER|SL:NR2R:0/200+/53/t<=0.5", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=1", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=1.3", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=1.5", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=1.64", 6.64 },
{ "PER|SL:NR2R:0/200+/53/t<=1.8", 6.65 },
{ "PER|SL:NR2R:0/200+/53/t<=1e-06", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=2.1", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=2.6", 6.67 },
{ "PER|SL:NR2R:0/200+/53/t<=2.95", 6.66 },
{ "PER|SL:NR2R:0/200+/53/t<=3.1", 6.66 },
{ "PER|SL:NR2R:0/200+/53/t<=3.141", 12.6 },
{ "PER|SL:NR2R:0/200+/53/t>3.141", 6.66 },
{ "PER|SL:NR2R:0/200+/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/200+/53/u<=0.5", 6.66 },
{ "PER|SL:NR2R:0/200+/53/u<=1", 6.67 },
{ "PER|SL:NR2R:0/200+/53/u<=1.3", 6.66 },
{ "PER|SL:NR2R:0/200+/53/u<=1.5", 12.7 },
{ "PER|SL:NR2R:0/200+/53/u<=1.64", 6.67 },
{ "PER|SL:NR2R:0/200+/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/200+/53/u<=1e-06", 6.65 },
{ "PER|SL:NR2R:0/200+/53/u<=2.1", 6.66 },
{ "PER|SL:NR2R:0/200+/53/u<=2.6", 6.66 },
{ "PER|SL:NR2R:0/200+/53/u<=2.95", 6.67 },
{ "PER|SL:NR2R:0/200+/53/u<=3.1", 12.7 },
{ "PER|SL:NR2R:0/200+/53/v<=0.1", 6.64 },
{ "PER|SL:NR2R:0/200+/53/v<=0.5", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=1", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=1.3", 6.65 },
{ "PER|SL:NR2R:0/200+/53/v<=1.5", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=1.64", 6.67 },
{ "PER|SL:NR2R:0/200+/53/v<=1.8", 6.65 },
{ "PER|SL:NR2R:0/200+/53/v<=1e-06", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=2.1", 6.64 },
{ "PER|SL:NR2R:0/200+/53/v<=2.6", 6.67 },
{ "PER|SL:NR2R:0/200+/53/v<=2.95", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=3.1", 6.66 },
{ "PER|SL:NR2R:0/200+/53/v<=3.141", 12.7 },
{ "PER|SL:NR2R:0/200+/53/v>3.141", 6.66 },
{ "PER|SL:NR2R:0/3/53/t<=0.1", 12.6 },
{ "PER|SL:NR2R:0/3/53/t<=0.5", 12.6 },
{ "PER|SL:NR2R:0/3/53/t<=1", 12.6 },
{ "PER|SL:NR2R:0/3/53/t<=1.3", 12.7 },
{ "PER|SL:NR2R:0/3/53/t<=1.5", 12.9 },
{ "PER|SL:NR2R:0/3/53/t<=1.64", 13 },
{ "PER|SL:NR2R:0/3/53/t<=1.8", 12.9 },
{ "PER|SL:NR2R:0/3/53/t<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/3/53/t<=2.1", 12.9 },
{ "PER|SL:NR2R:0/3/53/t<=2.6", 12.9 },
{ "PER|SL:NR2R:0/3/53/t<=2.95", 12.7 },
{ "PER|SL:NR2R:0/3/53/t<=3.1", 12.8 },
{ "PER|SL:NR2R:0/3/53/t<=3.141", 12.7 },
{ "PER|SL:NR2R:0/3/53/t>3.141", 13 },
{ "PER|SL:NR2R:0/3/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/3/53/u<=0.5", 12.6 },
{ "PER|SL:NR2R:0/3/53/u<=1", 12.6 },
{ "PER|SL:NR2R:0/3/53/u<=1.3", 12.7 },
{ "PER|SL:NR2R:0/3/53/u<=1.5", 12.9 },
{ "PER|SL:NR2R:0/3/53/u<=1.64", 12.8 },
{ "PER|SL:NR2R:0/3/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/3/53/u<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/3/53/u<=2.1", 12.7 },
{ "PER|SL:NR2R:0/3/53/u<=2.6", 12.8 },
{ "PER|SL:NR2R:0/3/53/u<=2.95", 12.8 },
{ "PER|SL:NR2R:0/3/53/u<=3.1", 13 },
{ "PER|SL:NR2R:0/3/53/v<=0.1", 12.5 },
{ "PER|SL:NR2R:0/3/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=1.3", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=1.5", 12.9 },
{ "PER|SL:NR2R:0/3/53/v<=1.64", 12.8 },
{ "PER|SL:NR2R:0/3/53/v<=1.8", 12.7 },
{ "PER|SL:NR2R:0/3/53/v<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=2.6", 12.7 },
{ "PER|SL:NR2R:0/3/53/v<=2.95", 12.6 },
{ "PER|SL:NR2R:0/3/53/v<=3.1", 12.7 },
{ "PER|SL:NR2R:0/3/53/v<=3.141", 12.5 },
{ "PER|SL:NR2R:0/3/53/v>3.141", 12.7 },
{ "PER|SL:NR2R:0/30-199/53/t<=0.1", 8.36 },
{ "PER|SL:NR2R:0/30-199/53/t<=0.5", 7.41 },
{ "PER|SL:NR2R:0/30-199/53/t<=1", 7.38 },
{ "PER|SL:NR2R:0/30-199/53/t<=1.3", 7.05 },
{ "PER|SL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "PER|SL:NR2R:0/30-199/53/t<=1.64", 7.33 },
{ "PER|SL:NR2R:0/30-199/53/t<=1.8", 7.2 },
{ "PER|SL:NR2R:0/30-199/53/t<=1e-06", 7.36 },
{ "PER|SL:NR2R:0/30-199/53/t<=2.1", 6.88 },
{ "PER|SL:NR2R:0/30-199/53/t<=2.6", 6.66 },
{ "PER|SL:NR2R:0/30-199/53/t<=2.95", 6.89 },
{ "PER|SL:NR2R:0/30-199/53/t<=3.1", 7.17 },
{ "PER|SL:NR2R:0/30-199/53/t<=3.141", 12.6 },
{ "PER|SL:NR2R:0/30-199/53/t>3.141", 7.2 },
{ "PER|SL:NR2R:0/30-199/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/30-199/53/u<=0.5", 6.83 },
{ "PER|SL:NR2R:0/30-199/53/u<=1", 6.67 },
{ "PER|SL:NR2R:0/30-199/53/u<=1.3", 6.63 },
{ "PER|SL:NR2R:0/30-199/53/u<=1.5", 12.7 },
{ "PER|SL:NR2R:0/30-199/53/u<=1.64", 7.4 },
{ "PER|SL:NR2R:0/30-199/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/30-199/53/u<=1e-06", 8.36 },
{ "PER|SL:NR2R:0/30-199/53/u<=2.1", 6.69 },
{ "PER|SL:NR2R:0/30-199/53/u<=2.6", 6.84 },
{ "PER|SL:NR2R:0/30-199/53/u<=2.95", 12.7 },
{ "PER|SL:NR2R:0/30-199/53/u<=3.1", 12.6 },
{ "PER|SL:NR2R:0/30-199/53/v<=0.1", 8.34 },
{ "PER|SL:NR2R:0/30-199/53/v<=0.5", 6.87 },
{ "PER|SL:NR2R:0/30-199/53/v<=1", 6.65 },
{ "PER|SL:NR2R:0/30-199/53/v<=1.3", 6.67 },
{ "PER|SL:NR2R:0/30-199/53/v<=1.5", 6.7 },
{ "PER|SL:NR2R:0/30-199/53/v<=1.64", 7.36 },
{ "PER|SL:NR2R:0/30-199/53/v<=1.8", 12.7 },
{ "PER|SL:NR2R:0/30-199/53/v<=1e-06", 8.36 },
{ "PER|SL:NR2R:0/30-199/53/v<=2.1", 6.64 },
{ "PER|SL:NR2R:0/30-199/53/v<=2.6", 6.67 },
{ "PER|SL:NR2R:0/30-199/53/v<=2.95", 6.65 },
{ "PER|SL:NR2R:0/30-199/53/v<=3.1", 12.7 },
{ "PER|SL:NR2R:0/30-199/53/v<=3.141", 12.6 },
{ "PER|SL:NR2R:0/30-199/53/v>3.141", 7.2 },
{ "PER|SL:NR2R:0/4/53/t<=0.1", 12.8 },
{ "PER|SL:NR2R:0/4/53/t<=0.5", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1.3", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1.5", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1.64", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1.8", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=1e-06", 7.32 },
{ "PER|SL:NR2R:0/4/53/t<=2.1", 12.6 },
{ "PER|SL:NR2R:0/4/53/t<=2.6", 17.8 },
{ "PER|SL:NR2R:0/4/53/t<=2.95", 39.5 },
{ "PER|SL:NR2R:0/4/53/t<=3.1", 57.7 },
{ "PER|SL:NR2R:0/4/53/t<=3.141", 66.8 },
{ "PER|SL:NR2R:0/4/53/t>3.141", 65.1 },
{ "PER|SL:NR2R:0/4/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/4/53/u<=0.5", 12.6 },
{ "PER|SL:NR2R:0/4/53/u<=1", 12.6 },
{ "PER|SL:NR2R:0/4/53/u<=1.3", 12.6 },
{ "PER|SL:NR2R:0/4/53/u<=1.5", 12.5 },
{ "PER|SL:NR2R:0/4/53/u<=1.64", 12.5 },
{ "PER|SL:NR2R:0/4/53/u<=1.8", 12.5 },
{ "PER|SL:NR2R:0/4/53/u<=1e-06", 7.32 },
{ "PER|SL:NR2R:0/4/53/u<=2.1", 12.6 },
{ "PER|SL:NR2R:0/4/53/u<=2.6", 13.6 },
{ "PER|SL:NR2R:0/4/53/u<=2.95", 36.2 },
{ "PER|SL:NR2R:0/4/53/u<=3.1", 53 },
{ "PER|SL:NR2R:0/4/53/v<=0.1", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1.3", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1.5", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1.64", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1.8", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=1e-06", 7.32 },
{ "PER|SL:NR2R:0/4/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=2.6", 12.6 },
{ "PER|SL:NR2R:0/4/53/v<=2.95", 21.9 },
{ "PER|SL:NR2R:0/4/53/v<=3.1", 41.3 },
{ "PER|SL:NR2R:0/4/53/v<=3.141", 63.2 },
{ "PER|SL:NR2R:0/4/53/v>3.141", 67.5 },
{ "PER|SL:NR2R:0/5/53/t<=0.1", 12.6 },
{ "PER|SL:NR2R:0/5/53/t<=0.5", 12.7 },
{ "PER|SL:NR2R:0/5/53/t<=1", 12.6 },
{ "PER|SL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "PER|SL:NR2R:0/5/53/t<=1.5", 12.9 },
{ "PER|SL:NR2R:0/5/53/t<=1.64", 13.4 },
{ "PER|SL:NR2R:0/5/53/t<=1.8", 12.6 },
{ "PER|SL:NR2R:0/5/53/t<=1e-06", 12.7 },
{ "PER|SL:NR2R:0/5/53/t<=2.1", 12.8 },
{ "PER|SL:NR2R:0/5/53/t<=2.6", 12.8 },
{ "PER|SL:NR2R:0/5/53/t<=2.95", 15.5 },
{ "PER|SL:NR2R:0/5/53/t<=3.1", 16.5 },
{ "PER|SL:NR2R:0/5/53/t<=3.141", 17.4 },
{ "PER|SL:NR2R:0/5/53/t>3.141", 16.9 },
{ "PER|SL:NR2R:0/5/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=0.5", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=1", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=1.3", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=1.5", 12.7 },
{ "PER|SL:NR2R:0/5/53/u<=1.64", 13.1 },
{ "PER|SL:NR2R:0/5/53/u<=1.8", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=2.1", 12.7 },
{ "PER|SL:NR2R:0/5/53/u<=2.6", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=2.95", 12.6 },
{ "PER|SL:NR2R:0/5/53/u<=3.1", 12.8 },
{ "PER|SL:NR2R:0/5/53/v<=0.1", 12.5 },
{ "PER|SL:NR2R:0/5/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=1.3", 12.5 },
{ "PER|SL:NR2R:0/5/53/v<=1.5", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=1.64", 12.8 },
{ "PER|SL:NR2R:0/5/53/v<=1.8", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=1e-06", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=2.6", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=2.95", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=3.1", 12.6 },
{ "PER|SL:NR2R:0/5/53/v<=3.141", 12.7 },
{ "PER|SL:NR2R:0/5/53/v>3.141", 12.9 },
{ "PER|SL:NR2R:0/6/53/t<=0.1", 12.9 },
{ "PER|SL:NR2R:0/6/53/t<=0.5", 12.6 },
{ "PER|SL:NR2R:0/6/53/t<=1", 12.7 },
{ "PER|SL:NR2R:0/6/53/t<=1.3", 12.6 },
{ "PER|SL:NR2R:0/6/53/t<=1.5", 12.6 },
{ "PER|SL:NR2R:0/6/53/t<=1.64", 12.6 },
{ "PER|SL:NR2R:0/6/53/t<=1.8", 12.7 },
{ "PER|SL:NR2R:0/6/53/t<=1e-06", 7.85 },
{ "PER|SL:NR2R:0/6/53/t<=2.1", 12.7 },
{ "PER|SL:NR2R:0/6/53/t<=2.6", 12.6 },
{ "PER|SL:NR2R:0/6/53/t<=2.95", 14 },
{ "PER|SL:NR2R:0/6/53/t<=3.1", 24.1 },
{ "PER|SL:NR2R:0/6/53/t<=3.141", 28.8 },
{ "PER|SL:NR2R:0/6/53/t>3.141", 33 },
{ "PER|SL:NR2R:0/6/53/u<=0.1", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=0.5", 12.5 },
{ "PER|SL:NR2R:0/6/53/u<=1", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=1.3", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=1.5", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=1.64", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=1.8", 12.5 },
{ "PER|SL:NR2R:0/6/53/u<=1e-06", 12.7 },
{ "PER|SL:NR2R:0/6/53/u<=2.1", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=2.6", 12.6 },
{ "PER|SL:NR2R:0/6/53/u<=2.95", 12.8 },
{ "PER|SL:NR2R:0/6/53/u<=3.1", 19.5 },
{ "PER|SL:NR2R:0/6/53/v<=0.1", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=0.5", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=1", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=1.3", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=1.5", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=1.64", 12.7 },
{ "PER|SL:NR2R:0/6/53/v<=1.8", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=1e-06", 7.85 },
{ "PER|SL:NR2R:0/6/53/v<=2.1", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=2.6", 12.6 },
{ "PER|SL:NR2R:0/6/53/v<=2.95", 12.7 },
{ "PER|SL:NR2R:0/6/53/v<=3.1", 17.7 },
{ "PER|SL:NR2R:0/6/53/v<=3.141", 27.5 },
{ "PER|SL:NR2R:0/6/53/v>3.141", 33 },
{ "PER|SL:NR2R:0/7-29/53/t<=0.1", 6.95 },
{ "PER|SL:NR2R:0/7-29/53/t<=0.5", 6.67 },
{ "PER|SL:NR2R:0/7-29/53/t<=1", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/t<=1.3", 6.67 },
{ "PER|SL:NR2R:0/7-29/53/t<=1.5", 6.93 },
{ "PER|SL:NR2R:0/7-29/53/t<=1.64", 7.61 },
{ "PER|SL:NR2R:0/7-29/53/t<=1.8", 7.05 },
{ "PER|SL:NR2R:0/7-29/53/t<=1e-06", 6.92 },
{ "PER|SL:NR2R:0/7-29/53/t<=2.1", 7 },
{ "PER|SL:NR2R:0/7-29/53/t<=2.6", 6.87 },
{ "PER|SL:NR2R:0/7-29/53/t<=2.95", 7.05 },
{ "PER|SL:NR2R:0/7-29/53/t<=3.1", 8.71 },
{ "PER|SL:NR2R:0/7-29/53/t<=3.141", 15.9 },
{ "PER|SL:NR2R:0/7-29/53/t>3.141", 12 },
{ "PER|SL:NR2R:0/7-29/53/u<=0.1", 6.89 },
{ "PER|SL:NR2R:0/7-29/53/u<=0.5", 6.65 },
{ "PER|SL:NR2R:0/7-29/53/u<=1", 6.64 },
{ "PER|SL:NR2R:0/7-29/53/u<=1.3", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/u<=1.5", 6.71 },
{ "PER|SL:NR2R:0/7-29/53/u<=1.64", 7.5 },
{ "PER|SL:NR2R:0/7-29/53/u<=1.8", 12.9 },
{ "PER|SL:NR2R:0/7-29/53/u<=1e-06", 6.72 },
{ "PER|SL:NR2R:0/7-29/53/u<=2.1", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/u<=2.6", 6.67 },
{ "PER|SL:NR2R:0/7-29/53/u<=2.95", 7.21 },
{ "PER|SL:NR2R:0/7-29/53/u<=3.1", 14.2 },
{ "PER|SL:NR2R:0/7-29/53/v<=0.1", 6.97 },
{ "PER|SL:NR2R:0/7-29/53/v<=0.5", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/v<=1", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/v<=1.3", 6.65 },
{ "PER|SL:NR2R:0/7-29/53/v<=1.5", 6.69 },
{ "PER|SL:NR2R:0/7-29/53/v<=1.64", 7.5 },
{ "PER|SL:NR2R:0/7-29/53/v<=1.8", 6.86 },
{ "PER|SL:NR2R:0/7-29/53/v<=1e-06", 6.84 },
{ "PER|SL:NR2R:0/7-29/53/v<=2.1", 6.67 },
{ "PER|SL:NR2R:0/7-29/53/v<=2.6", 6.66 },
{ "PER|SL:NR2R:0/7-29/53/v<=2.95", 6.71 },
{ "PER|SL:NR2R:0/7-29/53/v<=3.1", 8.03 },
{ "PER|SL:NR2R:0/7-29/53/v<=3.141", 16 },
{ "PER|SL:NR2R:0/7-29/53/v>3.141", 18.1 },
{ "PL|0/113/+0", 8.96 },
{ "PL|0/113/+1", 182 },
{ "PL|0/113/+2", 7.69 },
{ "PL|0/113/+3", 7.37 },
{ "PL|0/113/+4", 31.1 },
{ "PL|0/113/+5", 9.28 },
{ "PL|0/113/+6", 11.9 },
{ "PL|0/113/-0", 9.05 },
{ "PL|0/113/-1", 31.9 },
{ "PL|0/113/-2", 132 },
{ "PL|0/113/-3", 152 },
{ "PL|0/113/-4", 22.9 },
{ "PL|0/113/-5", 9.65 },
{ "PL|0/113/-6", 11.9 },
{ "PL|0/53/+0", 8.02 },
{ "PL|0/53/+1", 16.4 },
{ "PL|0/53/+2", 7.24 },
{ "PL|0/53/+3", 6.81 },
{ "PL|0/53/+4", 7.49 },
{ "PL|0/53/+5", 9.3 },
{ "PL|0/53/+6", 9.47 },
{ "PL|0/53/-0", 8.71 },
{ "PL|0/53/-1", 9.34 },
{ "PL|0/53/-2", 14.1 },
{ "PL|0/53/-3", 15.6 },
{ "PL|0/53/-4", 8.5 },
{ "PL|0/53/-5", 9.63 },
{ "PL|0/53/-6", 9.8 },
{ "PL|12/113/0", 8.05 },
{ "PL|12/113/1", 8.12 },
{ "PL|12/113/10", 8.55 },
{ "PL|12/113/11", 8.35 },
{ "PL|12/113/12", 8.24 },
{ "PL|12/113/13", 7.52 },
{ "PL|12/113/14", 6.74 },
{ "PL|12/113/15", 6.52 },
{ "PL|12/113/16", 6.29 },
{ "PL|12/113/2", 7.94 },
{ "PL|12/113/3", 7.77 },
{ "PL|12/113/4", 7.97 },
{ "PL|12/113/5", 7.74 },
{ "PL|12/113/6", 7.51 },
{ "PL|12/113/7", 12.3 },
{ "PL|12/113/8", 9.86 },
{ "PL|12/113/9", 9.66 },
{ "PL|12/53/0", 7.38 },
{ "PL|12/53/1", 7.8 },
{ "PL|12/53/10", 8.81 },
{ "PL|12/53/11", 8.42 },
{ "PL|12/53/12", 8.09 },
{ "PL|12/53/13", 7.56 },
{ "PL|12/53/14", 7.23 },
{ "PL|12/53/15", 7.02 },
{ "PL|12/53/16", 6.92 },
{ "PL|12/53/2", 7.9 },
{ "PL|12/53/3", 8.28 },
{ "PL|12/53/4", 8.49 },
{ "PL|12/53/5", 7.8 },
{ "PL|12/53/6", 7.72 },
{ "PL|12/53/7", 13.4 },
{ "PL|12/53/8", 11.1 },
{ "PL|12/53/9", 9.98 },
{ "PL|13/113/0", 7.66 },
{ "PL|13/113/1", 7.66 },
{ "PL|13/113/10", 8.47e+05 },
{ "PL|13/113/11", 8.49e+03 },
{ "PL|13/113/12", 7.55 },
{ "PL|13/113/13", 8.39 },
{ "PL|13/113/14", 10.4 },
{ "PL|13/113/15", 13.2 },
{ "PL|13/113/16", 16.6 },
{ "PL|13/113/2", 8.22 },
{ "PL|13/113/3", 8.8 },
{ "PL|13/113/4", 12.3 },
{ "PL|13/113/5", 15.2 },
{ "PL|13/113/6", 20.9 },
{ "PL|13/113/7", 2.88e+08 },
{ "PL|13/113/8", 7.78e+07 },
{ "PL|13/113/9", 8.2e+06 },
{ "PL|13/53/0", 7.2 },
{ "PL|13/53/1", 7.38 },
{ "PL|13/53/10", 30.3 },
{ "PL|13/53/11", 10.4 },
{ "PL|13/53/12", 7.96 },
{ "PL|13/53/13", 8.28 },
{ "PL|13/53/14", 10.8 },
{ "PL|13/53/15", 13.1 },
{ "PL|13/53/16", 15.1 },
{ "PL|13/53/2", 7.58 },
{ "PL|13/53/3", 8.18 },
{ "PL|13/53/4", 9.26 },
{ "PL|13/53/5", 12.9 },
{ "PL|13/53/6", 31.7 },
{ "PL|13/53/7", 246 },
{ "PL|13/53/8", 108 },
{ "PL|13/53/9", 50.9 },
{ "PL|14/113/0", 7.59 },
{ "PL|14/113/1", 7.64 },
{ "PL|14/113/10", 1.62e+06 },
{ "PL|14/113/11", 1.52e+04 },
{ "PL|14/113/12", 8.45 },
{ "PL|14/113/13", 48.3 },
{ "PL|14/113/14", 283 },
{ "PL|14/113/15", 268 },
{ "PL|14/113/16", 7.63 },
{ "PL|14/113/2", 8.01 },
{ "PL|14/113/3", 8.35 },
{ "PL|14/113/4", 9.51 },
{ "PL|14/113/5", 16.2 },
{ "PL|14/113/6", 21.3 },
{ "PL|14/113/7", 6.08e+08 },
{ "PL|14/113/8", 1.61e+08 },
{ "PL|14/113/9", 1.63e+07 },
{ "PL|14/53/0", 7.04 },
{ "PL|14/53/1", 7.07 },
{ "PL|14/53/10", 13.7 },
{ "PL|14/53/11", 10.2 },
{ "PL|14/53/12", 8.04 },
{ "PL|14/53/13", 7.71 },
{ "PL|14/53/14", 7.12 },
{ "PL|14/53/15", 6.96 },
{ "PL|14/53/16", 6.92 },
{ "PL|14/53/2", 7.31 },
{ "PL|14/53/3", 7.58 },
{ "PL|14/53/4", 8.63 },
{ "PL|14/53/5", 11.8 },
{ "PL|14/53/6", 33.1 },
{ "PL|14/53/7", 72.2 },
{ "PL|14/53/8", 41.6 },
{ "PL|14/53/9", 23.3 },
{ "PL|15/113/0", 9.86 },
{ "PL|15/113/1", 17.4 },
{ "PL|15/113/10", 1.4e+06 },
{ "PL|15/113/11", 1.31e+04 },
{ "PL|15/113/12", 7.37 },
{ "PL|15/113/13", 8.56 },
{ "PL|15/113/14", 9.24 },
{ "PL|15/113/15", 14 },
{ "PL|15/113/16", 15.4 },
{ "PL|15/113/2", 10.6 },
{ "PL|15/113/3", 9.84 },
{ "PL|15/113/4", 8.19 },
{ "PL|15/113/5", 8.32 },
{ "PL|15/113/6", 8.7 },
{ "PL|15/113/7", 5.23e+08 },
{ "PL|15/113/8", 1.38e+08 },
{ "PL|15/113/9", 1.41e+07 },
{ "PL|15/53/0", 8.88 },
{ "PL|15/53/1", 12.6 },
{ "PL|15/53/10", 37.4 },
{ "PL|15/53/11", 11.5 },
{ "PL|15/53/12", 7.63 },
{ "PL|15/53/13", 8.58 },
{ "PL|15/53/14", 10.2 },
{ "PL|15/53/15", 11.8 },
{ "PL|15/53/16", 14 },
{ "PL|15/53/2", 9.35 },
{ "PL|15/53/3", 9.33 },
{ "PL|15/53/4", 8.61 },
{ "PL|15/53/5", 8.81 },
{ "PL|15/53/6", 38.5 },
{ "PL|15/53/7", 298 },
{ "PL|15/53/8", 167 },
{ "PL|15/53/9", 61.9 },
{ "PL|16/113/0", 8.63 },
{ "PL|16/113/1", 9.55 },
{ "PL|16/113/10", 1.84e+06 },
{ "PL|16/113/11", 1.61e+04 },
{ "PL|16/113/12", 8.84 },
{ "PL|16/113/13", 7.72 },
{ "PL|16/113/14", 6.89 },
{ "PL|16/113/15", 6.5 },
{ "PL|16/113/16", 6.29 },
{ "PL|16/113/2", 8.55 },
{ "PL|16/113/3", 8.44 },
{ "PL|16/113/4", 11 },
{ "PL|16/113/5", 12.6 },
{ "PL|16/113/6", 17.9 },
{ "PL|16/113/7", 7.46e+08 },
{ "PL|16/113/8", 1.94e+08 },
{ "PL|16/113/9", 1.91e+07 },
{ "PL|16/53/0", 7.72 },
{ "PL|16/53/1", 8.84 },
{ "PL|16/53/10", 77 },
{ "PL|16/53/11", 22.5 },
{ "PL|16/53/12", 8.57 },
{ "PL|16/53/13", 7.92 },
{ "PL|16/53/14", 7.26 },
{ "PL|16/53/15", 7.02 },
{ "PL|16/53/16", 6.92 },
{ "PL|16/53/2", 8.61 },
{ "PL|16/53/3", 8.38 },
{ "PL|16/53/4", 9.49 },
{ "PL|16/53/5", 13.4 },
{ "PL|16/53/6", 43.7 },
{ "PL|16/53/7", 813 },
{ "PL|16/53/8", 424 },
{ "PL|16/53/9", 167 },
{ "PL|2/113/a0", 9.33 },
{ "PL|2/113/a1", 8.93 },
{ "PL|2/113/a1n", 9.92 },
{ "PL|2/113/a2", 8.71 },
{ "PL|2/113/a2h", 10 },
{ "PL|2/113/a2n", 8.66 },
{ "PL|2/113/a3", 14.8 },
{ "PL|2/113/a3h", 17.2 },
{ "PL|2/113/a3n", 11.3 },
{ "PL|2/113/a4", 8.82 },
{ "PL|2/113/a4h", 12.1 },
{ "PL|2/113/a4n", 10 },
{ "PL|2/113/a5", 9.62 },
{ "PL|2/113/a6", 12.1 },
{ "PL|2/113/r0", 8.58 },
{ "PL|2/113/r1", 36.7 },
{ "PL|2/113/r1n", 183 },
{ "PL|2/113/r2", 190 },
{ "PL|2/113/r2n", 13.6 },
{ "PL|2/113/r3", 164 },
{ "PL|2/113/r3n", 12.8 },
{ "PL|2/113/r4", 17.9 },
{ "PL|2/113/r4h", 13.2 },
{ "PL|2/113/r4n", 39.2 },
{ "PL|2/113/r5", 9.9 },
{ "PL|2/113/r6", 15.6 },
{ "PL|2/53/a0", 8.93 },
{ "PL|2/53/a1", 8.41 },
{ "PL|2/53/a1n", 9.51 },
{ "PL|2/53/a2", 8.28 },
{ "PL|2/53/a2h", 8.37 },
{ "PL|2/53/a2n", 7.82 },
{ "PL|2/53/a3", 10.1 },
{ "PL|2/53/a3h", 11.7 },
{ "PL|2/53/a3n", 9.36 },
{ "PL|2/53/a4", 8.28 },
{ "PL|2/53/a4h", 8.95 },
{ "PL|2/53/a4n", 8.94 },
{ "PL|2/53/a5", 10 },
{ "PL|2/53/a6", 10.7 },
{ "PL|2/53/r0", 7.88 },
{ "PL|2/53/r1", 8.56 },
{ "PL|2/53/r1n", 18.3 },
{ "PL|2/53/r2", 20.2 },
{ "PL|2/53/r2n", 7.06 },
{ "PL|2/53/r3", 18.8 },
{ "PL|2/53/r3n", 6.72 },
{ "PL|2/53/r4", 7.87 },
{ "PL|2/53/r4h", 13.1 },
{ "PL|2/53/r4n", 7.46 },
{ "PL|2/53/r5", 8.79 },
{ "PL|2/53/r6", 8.67 },
{ "PL|3/113/a0", 8.99 },
{ "PL|3/113/a1", 9.17 },
{ "PL|3/113/a1n", 17.2 },
{ "PL|3/113/a2", 8.98 },
{ "PL|3/113/a2h", 7.61 },
{ "PL|3/113/a2n", 9.1 },
{ "PL|3/113/a3", 12.4 },
{ "PL|3/113/a3h", 12.9 },
{ "PL|3/113/a3n", 8.75 },
{ "PL|3/113/a4", 9.84 },
{ "PL|3/113/a4h", 10.9 },
{ "PL|3/113/a4n", 8.06 },
{ "PL|3/113/a5", 12.6 },
{ "PL|3/113/a6", 16.5 },
{ "PL|3/113/r0", 8.22 },
{ "PL|3/113/r1", 8.71 },
{ "PL|3/113/r1n", 14.8 },
{ "PL|3/113/r2", 14.1 },
{ "PL|3/113/r2n", 13.7 },
{ "PL|3/113/r3", 14 },
{ "PL|3/113/r3n", 12.7 },
{ "PL|3/113/r4", 7.87 },
{ "PL|3/113/r4h", 13.8 },
{ "PL|3/113/r4n", 6.86 },
{ "PL|3/113/r5", 12.6 },
{ "PL|3/113/r6", 19.3 },
{ "PL|3/53/a0", 9.29 },
{ "PL|3/53/a1", 9.02 },
{ "PL|3/53/a1n", 12.4 },
{ "PL|3/53/a2", 8.86 },
{ "PL|3/53/a2h", 7.24 },
{ "PL|3/53/a2n", 8.75 },
{ "PL|3/53/a3", 11.7 },
{ "PL|3/53/a3h", 10.5 },
{ "PL|3/53/a3n", 8.5 },
{ "PL|3/53/a4", 9.49 },
{ "PL|3/53/a4h", 9.09 },
{ "PL|3/53/a4n", 8.71 },
{ "PL|3/53/a5", 12.8 },
{ "PL|3/53/a6", 15.1 },
{ "PL|3/53/r0", 7.89 },
{ "PL|3/53/r1", 8.29 },
{ "PL|3/53/r1n", 10.2 },
{ "PL|3/53/r2", 13.7 },
{ "PL|3/53/r2n", 6.89 },
{ "PL|3/53/r3", 13.7 },
{ "PL|3/53/r3n", 6.81 },
{ "PL|3/53/r4", 7.3 },
{ "PL|3/53/r4h", 13.6 },
{ "PL|3/53/r4n", 7.02 },
{ "PL|3/53/r5", 10.7 },
{ "PL|3/53/r6", 14.3 },
{ "PL|4/113/a0", 9.09 },
{ "PL|4/113/a1", 9.45 },
{ "PL|4/113/a1n", 16.3 },
{ "PL|4/113/a2", 9.04 },
{ "PL|4/113/a2h", 7.54 },
{ "PL|4/113/a2n", 8.89 },
{ "PL|4/113/a3", 19.9 },
{ "PL|4/113/a3h", 25.6 },
{ "PL|4/113/a3n", 8.37 },
{ "PL|4/113/a4", 11.2 },
{ "PL|4/113/a4h", 17 },
{ "PL|4/113/a4n", 7.98 },
{ "PL|4/113/a5", 17.3 },
{ "PL|4/113/a6", 24.3 },
{ "PL|4/113/r0", 8.56 },
{ "PL|4/113/r1", 8.61 },
{ "PL|4/113/r1n", 13.2 },
{ "PL|4/113/r2", 14.1 },
{ "PL|4/113/r2n", 13.2 },
{ "PL|4/113/r3", 14.4 },
{ "PL|4/113/r3n", 13.3 },
{ "PL|4/113/r4", 8.24 },
{ "PL|4/113/r4h", 15.4 },
{ "PL|4/113/r4n", 7.46 },
{ "PL|4/113/r5", 13.7 },
{ "PL|4/113/r6", 26.9 },
{ "PL|4/53/a0", 9.25 },
{ "PL|4/53/a1", 10.2 },
{ "PL|4/53/a1n", 15.2 },
{ "PL|4/53/a2", 8.59 },
{ "PL|4/53/a2h", 7.14 },
{ "PL|4/53/a2n", 8.2 },
{ "PL|4/53/a3", 16 },
{ "PL|4/53/a3h", 22.1 },
{ "PL|4/53/a3n", 11.6 },
{ "PL|4/53/a4", 9.04 },
{ "PL|4/53/a4h", 12 },
{ "PL|4/53/a4n", 8.45 },
{ "PL|4/53/a5", 16.4 },
{ "PL|4/53/a6", 20.9 },
{ "PL|4/53/r0", 8.04 },
{ "PL|4/53/r1", 8.44 },
{ "PL|4/53/r1n", 10.8 },
{ "PL|4/53/r2", 13.9 },
{ "PL|4/53/r2n", 7.2 },
{ "PL|4/53/r3", 15.1 },
{ "PL|4/53/r3n", 13 },
{ "PL|4/53/r4", 8.65 },
{ "PL|4/53/r4h", 14.2 },
{ "PL|4/53/r4n", 7.18 },
{ "PL|4/53/r5", 16.1 },
{ "PL|4/53/r6", 19 },
{ "PL|5/113/a0", 9.17 },
{ "PL|5/113/a1", 9.11 },
{ "PL|5/113/a1n", 9.33 },
{ "PL|5/113/a2", 9.06 },
{ "PL|5/113/a2h", 7.77 },
{ "PL|5/113/a2n", 7.89 },
{ "PL|5/113/a3", 13 },
{ "PL|5/113/a3h", 15.3 },
{ "PL|5/113/a3n", 8.07 },
{ "PL|5/113/a4", 9.47 },
{ "PL|5/113/a4h", 12.1 },
{ "PL|5/113/a4n", 7.92 },
{ "PL|5/113/a5", 18.2 },
{ "PL|5/113/a6", 27.1 },
{ "PL|5/113/r0", 8.57 },
{ "PL|5/113/r1", 9.2 },
{ "PL|5/113/r1n", 8 },
{ "PL|5/113/r2", 14.1 },
{ "PL|5/113/r2n", 13 },
{ "PL|5/113/r3", 14 },
{ "PL|5/113/r3n", 13.4 },
{ "PL|5/113/r4", 7.67 },
{ "PL|5/113/r4h", 14.5 },
{ "PL|5/113/r4n", 7.35 },
{ "PL|5/113/r5", 15.4 },
{ "PL|5/113/r6", 32.6 },
{ "PL|5/53/a0", 9.16 },
{ "PL|5/53/a1", 9.24 },
{ "PL|5/53/a1n", 9.92 },
{ "PL|5/53/a2", 9.02 },
{ "PL|5/53/a2h", 7.3 },
{ "PL|5/53/a2n", 7.98 },
{ "PL|5/53/a3", 15.8 },
{ "PL|5/53/a3h", 19.9 },
{ "PL|5/53/a3n", 9.7 },
{ "PL|5/53/a4", 10.6 },
{ "PL|5/53/a4h", 11.8 },
{ "PL|5/53/a4n", 9.33 },
{ "PL|5/53/a5", 19.2 },
{ "PL|5/53/a6", 25.6 },
{ "PL|5/53/r0", 8.75 },
{ "PL|5/53/r1", 8.35 },
{ "PL|5/53/r1n", 8.86 },
{ "PL|5/53/r2", 13.7 },
{ "PL|5/53/r2n", 7.16 },
{ "PL|5/53/r3", 13.8 },
{ "PL|5/53/r3n", 13.1 },
{ "PL|5/53/r4", 7.53 },
{ "PL|5/53/r4h", 14.7 },
{ "PL|5/53/r4n", 8.07 },
{ "PL|5/53/r5", 15.3 },
{ "PL|5/53/r6", 20.7 },
{ "PL|6/113/a0", 9.14 },
{ "PL|6/113/a1", 9.09 },
{ "PL|6/113/a1n", 9.36 },
{ "PL|6/113/a2", 9.2 },
{ "PL|6/113/a2h", 7.66 },
{ "PL|6/113/a2n", 7.96 },
{ "PL|6/113/a3", 17.4 },
{ "PL|6/113/a3h", 21.6 },
{ "PL|6/113/a3n", 8.03 },
{ "PL|6/113/a4", 9.59 },
{ "PL|6/113/a4h", 15.4 },
{ "PL|6/113/a4n", 8.12 },
{ "PL|6/113/a5", 20.2 },
{ "PL|6/113/a6", 29.4 },
{ "PL|6/113/r0", 8.51 },
{ "PL|6/113/r1", 8.53 },
{ "PL|6/113/r1n", 8.64 },
{ "PL|6/113/r2", 13.9 },
{ "PL|6/113/r2n", 13.3 },
{ "PL|6/113/r3", 14.6 },
{ "PL|6/113/r3n", 13 },
{ "PL|6/113/r4", 7.47 },
{ "PL|6/113/r4h", 16 },
{ "PL|6/113/r4n", 7.41 },
{ "PL|6/113/r5", 19.5 },
{ "PL|6/113/r6", 38.8 },
{ "PL|6/53/a0", 9.11 },
{ "PL|6/53/a1", 8.82 },
{ "PL|6/53/a1n", 8.91 },
{ "PL|6/53/a2", 9.08 },
{ "PL|6/53/a2h", 7.22 },
{ "PL|6/53/a2n", 7.89 },
{ "PL|6/53/a3", 17.1 },
{ "PL|6/53/a3h", 21.6 },
{ "PL|6/53/a3n", 10.8 },
{ "PL|6/53/a4", 9.29 },
{ "PL|6/53/a4h", 11.4 },
{ "PL|6/53/a4n", 9.24 },
{ "PL|6/53/a5", 22.6 },
{ "PL|6/53/a6", 30.3 },
{ "PL|6/53/r0", 8.27 },
{ "PL|6/53/r1", 8.57 },
{ "PL|6/53/r1n", 8.18 },
{ "PL|6/53/r2", 13.9 },
{ "PL|6/53/r2n", 7.33 },
{ "PL|6/53/r3", 15.6 },
{ "PL|6/53/r3n", 13.4 },
{ "PL|6/53/r4", 8.88 },
{ "PL|6/53/r4h", 14.4 },
{ "PL|6/53/r4n", 7.18 },
{ "PL|6/53/r5", 20.6 },
{ "PL|6/53/r6", 28.4 },
{ "PREC|CL:R2R:2//53/t<=0.1-64", 7.71 },
{ "PREC|CL:R2R:2//53/t<=0.5-64", 7.93 },
{ "PREC|CL:R2R:2//53/t<=1-64", 8.62 },
{ "PREC|CL:R2R:2//53/t<=1.3-64", 8.2 },
{ "PREC|CL:R2R:2//53/t<=1.5-64", 7.73 },
{ "PREC|CL:R2R:2//53/t<=1.64-64", 8.86 },
{ "PREC|CL:R2R:2//53/t<=1.8-64", 8.69 },
{ "PREC|CL:R2R:2//53/t<=1e-06-64", 7.51 },
{ "PREC|CL:R2R:2//53/t<=2.1-64", 8.46 },
{ "PREC|CL:R2R:2//53/t<=2.6-64", 8.3 },
{ "PREC|CL:R2R:2//53/t<=2.95-64", 7.07 },
{ "PREC|CL:R2R:2//53/t<=3.1-64", 6.96 },
{ "PREC|CL:R2R:2//53/t<=3.141-64", 6.95 },
{ "PREC|CL:R2R:2//53/t>3.141-64", 6.92 },
{ "PREC|CL:R2R:2//53/u<=0.1-64", 6.35 },
{ "PREC|CL:R2R:2//53/u<=0.5-64", 6.35 },
{ "PREC|CL:R2R:2//53/u<=1-64", 8.21 },
{ "PREC|CL:R2R:2//53/u<=1.3-64", 7.96 },
{ "PREC|CL:R2R:2//53/u<=1.5-64", 7.04 },
{ "PREC|CL:R2R:2//53/u<=1.64-64", 7.67 },
{ "PREC|CL:R2R:2//53/u<=1.8-64", 7.43 },
{ "PREC|CL:R2R:2//53/u<=1e-06-64", 6.35 },
{ "PREC|CL:R2R:2//53/u<=2.1-64", 7.74 },
{ "PREC|CL:R2R:2//53/u<=2.6-64", 7.64 },
{ "PREC|CL:R2R:2//53/u<=2.95-64", 7.25 },
{ "PREC|CL:R2R:2//53/u<=3.1-64", 7.03 },
{ "PREC|CL:R2R:2//53/v<=0.1-64", 6.69 },
{ "PREC|CL:R2R:2//53/v<=0.5-64", 6.65 },
{ "PREC|CL:R2R:2//53/v<=1-64", 7.95 },
{ "PREC|CL:R2R:2//53/v<=1.3-64", 7.98 },
{ "PREC|CL:R2R:2//53/v<=1.5-64", 6.95 },
{ "PREC|CL:R2R:2//53/v<=1.64-64", 7.18 },
{ "PREC|CL:R2R:2//53/v<=1.8-64", 7.09 },
{ "PREC|CL:R2R:2//53/v<=1e-06-64", 6.37 },
{ "PREC|CL:R2R:2//53/v<=2.1-64", 7 },
{ "PREC|CL:R2R:2//53/v<=2.6-64", 6.88 },
{ "PREC|CL:R2R:2//53/v<=2.95-64", 6.57 },
{ "PREC|CL:R2R:2//53/v<=3.1-64", 6.42 },
{ "PREC|CL:R2R:2//53/v<=3.141-64", 6.37 },
{ "PREC|CL:R2R:2//53/v>3.141-64", 6.35 },
{ "PREC|CL:R2R:3//53/t<=0.1-64", 7.22 },
{ "PREC|CL:R2R:3//53/t<=0.5-64", 7.51 },
{ "PREC|CL:R2R:3//53/t<=1-64", 7.83 },
{ "PREC|CL:R2R:3//53/t<=1.3-64", 11.2 },
{ "PREC|CL:R2R:3//53/t<=1.5-64", 11.8 },
{ "PREC|CL:R2R:3//53/t<=1.64-64", 13.5 },
{ "PREC|CL:R2R:3//53/t<=1.8-64", 7.39 },
{ "PREC|CL:R2R:3//53/t<=1e-06-64", 7.2 },
{ "PREC|CL:R2R:3//53/t<=2.1-64", 7.73 },
{ "PREC|CL:R2R:3//53/t<=2.6-64", 7.95 },
{ "PREC|CL:R2R:3//53/t<=2.95-64", 9.37 },
{ "PREC|CL:R2R:3//53/t<=3.1-64", 12.4 },
{ "PREC|CL:R2R:3//53/t<=3.141-64", 15.9 },
{ "PREC|CL:R2R:3//53/t>3.141-64", 13.4 },
{ "PREC|CL:R2R:3//53/u<=0.1-64", 7.2 },
{ "PREC|CL:R2R:3//53/u<=0.5-64", 6.45 },
{ "PREC|CL:R2R:3//53/u<=1-64", 6.47 },
{ "PREC|CL:R2R:3//53/u<=1.3-64", 6.99 },
{ "PREC|CL:R2R:3//53/u<=1.5-64", 7.31 },
{ "PREC|CL:R2R:3//53/u<=1.64-64", 7.56 },
{ "PREC|CL:R2R:3//53/u<=1.8-64", 6.51 },
{ "PREC|CL:R2R:3//53/u<=1e-06-64", 7.2 },
{ "PREC|CL:R2R:3//53/u<=2.1-64", 7.29 },
{ "PREC|CL:R2R:3//53/u<=2.6-64", 7.75 },
{ "PREC|CL:R2R:3//53/u<=2.95-64", 9.06 },
{ "PREC|CL:R2R:3//53/u<=3.1-64", 13.2 },
{ "PREC|CL:R2R:3//53/v<=0.1-64", 7.2 },
{ "PREC|CL:R2R:3//53/v<=0.5-64", 6.66 },
{ "PREC|CL:R2R:3//53/v<=1-64", 6.65 },
{ "PREC|CL:R2R:3//53/v<=1.3-64", 6.92 },
{ "PREC|CL:R2R:3//53/v<=1.5-64", 7.04 },
{ "PREC|CL:R2R:3//53/v<=1.64-64", 7.11 },
{ "PREC|CL:R2R:3//53/v<=1.8-64", 6.58 },
{ "PREC|CL:R2R:3//53/v<=1e-06-64", 7.2 },
{ "PREC|CL:R2R:3//53/v<=2.1-64", 6.74 },
{ "PREC|CL:R2R:3//53/v<=2.6-64", 6.83 },
{ "PREC|CL:R2R:3//53/v<=2.95-64", 7.97 },
{ "PREC|CL:R2R:3//53/v<=3.1-64", 9.36 },
{ "PREC|CL:R2R:3//53/v<=3.141-64", 14 },
{ "PREC|CL:R2R:3//53/v>3.141-64", 12.8 },
{ "PREC|CL:R2R:4//53/t<=0.1-64", 7.08 },
{ "PREC|CL:R2R:4//53/t<=0.5-64", 7.29 },
{ "PREC|CL:R2R:4//53/t<=1-64", 7.78 },
{ "PREC|CL:R2R:4//53/t<=1.3-64", 9.78 },
{ "PREC|CL:R2R:4//53/t<=1.5-64", 16 },
{ "PREC|CL:R2R:4//53/t<=1.64-64", 16 },
{ "PREC|CL:R2R:4//53/t<=1.8-64", 10.8 },
{ "PREC|CL:R2R:4//53/t<=1e-06-64", 7.07 },
{ "PREC|CL:R2R:4//53/t<=2.1-64", 8.84 },
{ "PREC|CL:R2R:4//53/t<=2.6-64", 7.98 },
{ "PREC|CL:R2R:4//53/t<=2.95-64", 7.17 },
{ "PREC|CL:R2R:4//53/t<=3.1-64", 6.96 },
{ "PREC|CL:R2R:4//53/t<=3.141-64", 6.95 },
{ "PREC|CL:R2R:4//53/t>3.141-64", 6.92 },
{ "PREC|CL:R2R:4//53/u<=0.1-64", 6.35 },
{ "PREC|CL:R2R:4//53/u<=0.5-64", 6.25 },
{ "PREC|CL:R2R:4//53/u<=1-64", 6.9 },
{ "PREC|CL:R2R:4//53/u<=1.3-64", 8.31 },
{ "PREC|CL:R2R:4//53/u<=1.5-64", 16.1 },
{ "PREC|CL:R2R:4//53/u<=1.64-64", 12.1 },
{ "PREC|CL:R2R:4//53/u<=1.8-64", 8.47 },
{ "PREC|CL:R2R:4//53/u<=1e-06-64", 6.35 },
{ "PREC|CL:R2R:4//53/u<=2.1-64", 7.61 },
{ "PREC|CL:R2R:4//53/u<=2.6-64", 7.51 },
{ "PREC|CL:R2R:4//53/u<=2.95-64", 7.32 },
{ "PREC|CL:R2R:4//53/u<=3.1-64", 7.07 },
{ "PREC|CL:R2R:4//53/v<=0.1-64", 6.41 },
{ "PREC|CL:R2R:4//53/v<=0.5-64", 6.41 },
{ "PREC|CL:R2R:4//53/v<=1-64", 6.6 },
{ "PREC|CL:R2R:4//53/v<=1.3-64", 7.6 },
{ "PREC|CL:R2R:4//53/v<=1.5-64", 14.1 },
{ "PREC|CL:R2R:4//53/v<=1.64-64", 9.54 },
{ "PREC|CL:R2R:4//53/v<=1.8-64", 7.58 },
{ "PREC|CL:R2R:4//53/v<=1e-06-64", 6.35 },
{ "PREC|CL:R2R:4//53/v<=2.1-64", 7.08 },
{ "PREC|CL:R2R:4//53/v<=2.6-64", 6.96 },
{ "PREC|CL:R2R:4//53/v<=2.95-64", 6.57 },
{ "PREC|CL:R2R:4//53/v<=3.1-64", 6.43 },
{ "PREC|CL:R2R:4//53/v<=3.141-64", 6.39 },
{ "PREC|CL:R2R:4//53/v>3.141-64", 6.35 },
{ "PREC|CL:R2R:5//53/t<=0.1-64", 13.6 },
{ "PREC|CL:R2R:5//53/t<=0.5-64", 10.7 },
{ "PREC|CL:R2R:5//53/t<=1-64", 8.39 },
{ "PREC|CL:R2R:5//53/t<=1.3-64", 7.98 },
{ "PREC|CL:R2R:5//53/t<=1.5-64", 7.77 },
{ "PREC|CL:R2R:5//53/t<=1.64-64", 7.87 },
{ "PREC|CL:R2R:5//53/t<=1.8-64", 7.47 },
{ "PREC|CL:R2R:5//53/t<=1e-06-64", 8.87 },
{ "PREC|CL:R2R:5//53/t<=2.1-64", 7.64 },
{ "PREC|CL:R2R:5//53/t<=2.6-64", 7.79 },
{ "PREC|CL:R2R:5//53/t<=2.95-64", 9 },
{ "PREC|CL:R2R:5//53/t<=3.1-64", 11 },
{ "PREC|CL:R2R:5//53/t<=3.141-64", 14.4 },
{ "PREC|CL:R2R:5//53/t>3.141-64", 12.9 },
{ "PREC|CL:R2R:5//53/u<=0.1-64", 12.6 },
{ "PREC|CL:R2R:5//53/u<=0.5-64", 8.65 },
{ "PREC|CL:R2R:5//53/u<=1-64", 6.77 },
{ "PREC|CL:R2R:5//53/u<=1.3-64", 6.49 },
{ "PREC|CL:R2R:5//53/u<=1.5-64", 6.52 },
{ "PREC|CL:R2R:5//53/u<=1.64-64", 6.6 },
{ "PREC|CL:R2R:5//53/u<=1.8-64", 6.51 },
{ "PREC|CL:R2R:5//53/u<=1e-06-64", 8.9 },
{ "PREC|CL:R2R:5//53/u<=2.1-64", 7.29 },
{ "PREC|CL:R2R:5//53/u<=2.6-64", 7.74 },
{ "PREC|CL:R2R:5//53/u<=2.95-64", 8.84 },
{ "PREC|CL:R2R:5//53/u<=3.1-64", 10.9 },
{ "PREC|CL:R2R:5//53/v<=0.1-64", 11.7 },
{ "PREC|CL:R2R:5//53/v<=0.5-64", 8.22 },
{ "PREC|CL:R2R:5//53/v<=1-64", 6.63 },
{ "PREC|CL:R2R:5//53/v<=1.3-64", 6.57 },
{ "PREC|CL:R2R:5//53/v<=1.5-64", 6.62 },
{ "PREC|CL:R2R:5//53/v<=1.64-64", 6.64 },
{ "PREC|CL:R2R:5//53/v<=1.8-64", 6.58 },
{ "PREC|CL:R2R:5//53/v<=1e-06-64", 8.9 },
{ "PREC|CL:R2R:5//53/v<=2.1-64", 6.74 },
{ "PREC|CL:R2R:5//53/v<=2.6-64", 6.84 },
{ "PREC|CL:R2R:5//53/v<=2.95-64", 7.66 },
{ "PREC|CL:R2R:5//53/v<=3.1-64", 8.74 },
{ "PREC|CL:R2R:5//53/v<=3.141-64", 12.6 },
{ "PREC|CL:R2R:5//53/v>3.141-64", 12.5 },
{ "PREC|CL:R2R:6//53/t<=0.1-64", 8.53 },
{ "PREC|CL:R2R:6//53/t<=0.5-64", 8.81 },
{ "PREC|CL:R2R:6//53/t<=1-64", 8.36 },
{ "PREC|CL:R2R:6//53/t<=1.3-64", 9.02 },
{ "PREC|CL:R2R:6//53/t<=1.5-64", 11.6 },
{ "PREC|CL:R2R:6//53/t<=1.64-64", 14.3 },
{ "PREC|CL:R2R:6//53/t<=1.8-64", 9.6 },
{ "PREC|CL:R2R:6//53/t<=1e-06-64", 7.72 },
{ "PREC|CL:R2R:6//53/t<=2.1-64", 8.5 },
{ "PREC|CL:R2R:6//53/t<=2.6-64", 8.06 },
{ "PREC|CL:R2R:6//53/t<=2.95-64", 7.13 },
{ "PREC|CL:R2R:6//53/t<=3.1-64", 6.97 },
{ "PREC|CL:R2R:6//53/t<=3.141-64", 6.96 },
{ "PREC|CL:R2R:6//53/t>3.141-64", 6.92 },
{ "PREC|CL:R2R:6//53/u<=0.1-64", 6.36 },
{ "PREC|CL:R2R:6//53/u<=0.5-64", 6.4 },
{ "PREC|CL:R2R:6//53/u<=1-64", 6.93 },
{ "PREC|CL:R2R:6//53/u<=1.3-64", 7.67 },
{ "PREC|CL:R2R:6//53/u<=1.5-64", 9.37 },
{ "PREC|CL:R2R:6//53/u<=1.64-64", 13.2 },
{ "PREC|CL:R2R:6//53/u<=1.8-64", 8.97 },
{ "PREC|CL:R2R:6//53/u<=1e-06-64", 6.35 },
{ "PREC|CL:R2R:6//53/u<=2.1-64", 7.8 },
{ "PREC|CL:R2R:6//53/u<=2.6-64", 7.66 },
{ "PREC|CL:R2R:6//53/u<=2.95-64", 7.33 },
{ "PREC|CL:R2R:6//53/u<=3.1-64", 7.08 },
{ "PREC|CL:R2R:6//53/v<=0.1-64", 6.4 },
{ "PREC|CL:R2R:6//53/v<=0.5-64", 6.49 },
{ "PREC|CL:R2R:6//53/v<=1-64", 6.66 },
{ "PREC|CL:R2R:6//53/v<=1.3-64", 7.39 },
{ "PREC|CL:R2R:6//53/v<=1.5-64", 8.93 },
{ "PREC|CL:R2R:6//53/v<=1.64-64", 9.94 },
{ "PREC|CL:R2R:6//53/v<=1.8-64", 8.01 },
{ "PREC|CL:R2R:6//53/v<=1e-06-64", 6.35 },
{ "PREC|CL:R2R:6//53/v<=2.1-64", 7.11 },
{ "PREC|CL:R2R:6//53/v<=2.6-64", 6.94 },
{ "PREC|CL:R2R:6//53/v<=2.95-64", 6.59 },
{ "PREC|CL:R2R:6//53/v<=3.1-64", 6.43 },
{ "PREC|CL:R2R:6//53/v<=3.141-64", 6.37 },
{ "PREC|CL:R2R:6//53/v>3.141-64", 6.35 },
{ "PREC|LI:C2C:2//24/a<=0.25-53", 8.73 },
{ "PREC|LI:C2C:2//24/a<=0.25-64", 8.73 },
{ "PREC|LI:C2C:2//24/a<=0.75-53", 8.26 },
{ "PREC|LI:C2C:2//24/a<=0.75-64", 8.26 },
{ "PREC|LI:C2C:2//24/a<=0.75n-53", 11.9 },
{ "PREC|LI:C2C:2//24/a<=0.75n-64", 11.9 },
{ "PREC|LI:C2C:2//24/a<=1-53", 8.33 },
{ "PREC|LI:C2C:2//24/a<=1-64", 8.33 },
{ "PREC|LI:C2C:2//24/a<=1.4-53", 16.2 },
{ "PREC|LI:C2C:2//24/a<=1.4-64", 16.2 },
{ "PREC|LI:C2C:2//24/a<=1.4h-53", 19.2 },
{ "PREC|LI:C2C:2//24/a<=1.4h-64", 19.2 },
{ "PREC|LI:C2C:2//24/a<=1.4n-53", 11.2 },
{ "PREC|LI:C2C:2//24/a<=1.4n-64", 11.2 },
{ "PREC|LI:C2C:2//24/a<=1e+10-53", 9.97 },
{ "PREC|LI:C2C:2//24/a<=1e+10-64", 9.97 },
{ "PREC|LI:C2C:2//24/a<=1h-53", 9.02 },
{ "PREC|LI:C2C:2//24/a<=1h-64", 9.02 },
{ "PREC|LI:C2C:2//24/a<=1n-53", 8.61 },
{ "PREC|LI:C2C:2//24/a<=1n-64", 8.61 },
{ "PREC|LI:C2C:2//24/a<=4-53", 8.96 },
{ "PREC|LI:C2C:2//24/a<=4-64", 8.96 },
{ "PREC|LI:C2C:2//24/a<=4h-53", 11.5 },
{ "PREC|LI:C2C:2//24/a<=4h-64", 11.5 },
{ "PREC|LI:C2C:2//24/a<=4n-53", 9.46 },
{ "PREC|LI:C2C:2//24/a<=4n-64", 9.46 },
{ "PREC|LI:C2C:2//24/a>1e+10-53", 9.88 },
{ "PREC|LI:C2C:2//24/a>1e+10-64", 9.88 },
{ "PREC|LI:C2C:2//24/r<=0.25-53", 10.3 },
{ "PREC|LI:C2C:2//24/r<=0.25-64", 10.3 },
{ "PREC|LI:C2C:2//24/r<=0.75-53", 9.73 },
{ "PREC|LI:C2C:2//24/r<=0.75-64", 9.73 },
{ "PREC|LI:C2C:2//24/r<=0.75n-53", 13.6 },
{ "PREC|LI:C2C:2//24/r<=0.75n-64", 13.6 },
{ "PREC|LI:C2C:2//24/r<=1-53", 15 },
{ "PREC|LI:C2C:2//24/r<=1-64", 15 },
{ "PREC|LI:C2C:2//24/r<=1.4-53", 15.9 },
{ "PREC|LI:C2C:2//24/r<=1.4-64", 15.9 },
{ "PREC|LI:C2C:2//24/r<=1.4n-53", 13.1 },
{ "PREC|LI:C2C:2//24/r<=1.4n-64", 13.1 },
{ "PREC|LI:C2C:2//24/r<=1e+10-53", 8.73 },
{ "PREC|LI:C2C:2//24/r<=1e+10-64", 8.73 },
{ "PREC|LI:C2C:2//24/r<=1n-53", 7.28 },
{ "PREC|LI:C2C:2//24/r<=1n-64", 7.28 },
{ "PREC|LI:C2C:2//24/r<=4-53", 8.55 },
{ "PREC|LI:C2C:2//24/r<=4-64", 8.55 },
{ "PREC|LI:C2C:2//24/r<=4h-53", 13.4 },
{ "PREC|LI:C2C:2//24/r<=4h-64", 13.4 },
{ "PREC|LI:C2C:2//24/r<=4n-53", 7.55 },
{ "PREC|LI:C2C:2//24/r<=4n-64", 7.55 },
{ "PREC|LI:C2C:2//24/r>1e+10-53", 9.67 },
{ "PREC|LI:C2C:2//24/r>1e+10-64", 9.67 },
{ "PREC|LI:C2C:2//53/a<=0.25-64", 9.32 },
{ "PREC|LI:C2C:2//53/a<=0.75-64", 8.6 },
{ "PREC|LI:C2C:2//53/a<=0.75n-64", 9.55 },
{ "PREC|LI:C2C:2//53/a<=1-64", 8.38 },
{ "PREC|LI:C2C:2//53/a<=1.4-64", 10.4 },
{ "PREC|LI:C2C:2//53/a<=1.4h-64", 12.3 },
{ "PREC|LI:C2C:2//53/a<=1.4n-64", 9.57 },
{ "PREC|LI:C2C:2//53/a<=1e+10-64", 10.7 },
{ "PREC|LI:C2C:2//53/a<=1h-64", 8.44 },
{ "PREC|LI:C2C:2//53/a<=1n-64", 8.06 },
{ "PREC|LI:C2C:2//53/a<=4-64", 8.41 },
{ "PREC|LI:C2C:2//53/a<=4h-64", 8.86 },
{ "PREC|LI:C2C:2//53/a<=4n-64", 9.02 },
{ "PREC|LI:C2C:2//53/a>1e+10-64", 10.3 },
{ "PREC|LI:C2C:2//53/r<=0.25-64", 8.74 },
{ "PREC|LI:C2C:2//53/r<=0.75-64", 18.8 },
{ "PREC|LI:C2C:2//53/r<=0.75n-64", 35.6 },
{ "PREC|LI:C2C:2//53/r<=1-64", 42 },
{ "PREC|LI:C2C:2//53/r<=1.4-64", 39.5 },
{ "PREC|LI:C2C:2//53/r<=1.4n-64", 6.78 },
{ "PREC|LI:C2C:2//53/r<=1e+10-64", 9.59 },
{ "PREC|LI:C2C:2//53/r<=1n-64", 7.27 },
{ "PREC|LI:C2C:2//53/r<=4-64", 11 },
{ "PREC|LI:C2C:2//53/r<=4h-64", 13 },
{ "PREC|LI:C2C:2//53/r<=4n-64", 8.74 },
{ "PREC|LI:C2C:2//53/r>1e+10-64", 9.82 },
{ "PREC|LI:C2C:3//53/a<=0.25-64", 8.78 },
{ "PREC|LI:C2C:3//53/a<=0.75-64", 8.84 },
{ "PREC|LI:C2C:3//53/a<=0.75n-64", 14.2 },
{ "PREC|LI:C2C:3//53/a<=1-64", 24.1 },
{ "PREC|LI:C2C:3//53/a<=1.4-64", 26.5 },
{ "PREC|LI:C2C:3//53/a<=1.4h-64", 42.7 },
{ "PREC|LI:C2C:3//53/a<=1.4n-64", 26.8 },
{ "PREC|LI:C2C:3//53/a<=1e+10-64", 10.3 },
{ "PREC|LI:C2C:3//53/a<=1h-64", 39.6 },
{ "PREC|LI:C2C:3//53/a<=1n-64", 29.9 },
{ "PREC|LI:C2C:3//53/a<=4-64", 9.68 },
{ "PREC|LI:C2C:3//53/a<=4h-64", 9.56 },
{ "PREC|LI:C2C:3//53/a<=4n-64", 8.65 },
{ "PREC|LI:C2C:3//53/a>1e+10-64", 15.1 },
{ "PREC|LI:C2C:3//53/r<=0.25-64", 8.81 },
{ "PREC|LI:C2C:3//53/r<=0.75-64", 12.3 },
{ "PREC|LI:C2C:3//53/r<=0.75n-64", 40 },
{ "PREC|LI:C2C:3//53/r<=1-64", 8.33 },
{ "PREC|LI:C2C:3//53/r<=1.4-64", 8.57 },
{ "PREC|LI:C2C:3//53/r<=1.4n-64", 7.1 },
{ "PREC|LI:C2C:3//53/r<=1e+10-64", 12.7 },
{ "PREC|LI:C2C:3//53/r<=1n-64", 7.88 },
{ "PREC|LI:C2C:3//53/r<=4-64", 7.66 },
{ "PREC|LI:C2C:3//53/r<=4h-64", 7.27 },
{ "PREC|LI:C2C:3//53/r<=4n-64", 8.56 },
{ "PREC|LI:C2C:3//53/r>1e+10-64", 14.9 },
{ "PREC|LI:C2C:4//53/a<=0.25-64", 8.86 },
{ "PREC|LI:C2C:4//53/a<=0.75-64", 9.83 },
{ "PREC|LI:C2C:4//53/a<=0.75n-64", 19.7 },
{ "PREC|LI:C2C:4//53/a<=1-64", 16.7 },
{ "PREC|LI:C2C:4//53/a<=1.4-64", 25.9 },
{ "PREC|LI:C2C:4//53/a<=1.4h-64", 31 },
{ "PREC|LI:C2C:4//53/a<=1.4n-64", 18.3 },
{ "PREC|LI:C2C:4//53/a<=1e+10-64", 14.4 },
{ "PREC|LI:C2C:4//53/a<=1h-64", 26.5 },
{ "PREC|LI:C2C:4//53/a<=1n-64", 20.4 },
{ "PREC|LI:C2C:4//53/a<=4-64", 10.8 },
{ "PREC|LI:C2C:4//53/a<=4h-64", 14.8 },
{ "PREC|LI:C2C:4//53/a<=4n-64", 11.2 },
{ "PREC|LI:C2C:4//53/a>1e+10-64", 25.8 },
{ "PREC|LI:C2C:4//53/r<=0.25-64", 9.2 },
{ "PREC|LI:C2C:4//53/r<=0.75-64", 11.3 },
{ "PREC|LI:C2C:4//53/r<=0.75n-64", 289 },
{ "PREC|LI:C2C:4//53/r<=1-64", 8.51 },
{ "PREC|LI:C2C:4//53/r<=1.4-64", 8.97 },
{ "PREC|LI:C2C:4//53/r<=1.4n-64", 211 },
{ "PREC|LI:C2C:4//53/r<=1e+10-64", 15.6 },
{ "PREC|LI:C2C:4//53/r<=1n-64", 365 },
{ "PREC|LI:C2C:4//53/r<=4-64", 8.07 },
{ "PREC|LI:C2C:4//53/r<=4h-64", 7.53 },
{ "PREC|LI:C2C:4//53/r<=4n-64", 91.3 },
{ "PREC|LI:C2C:4//53/r>1e+10-64", 21.8 },
{ "PREC|LI:C2C:5//53/a<=0.25-64", 9.39 },
{ "PREC|LI:C2C:5//53/a<=0.75-64", 9.1 },
{ "PREC|LI:C2C:5//53/a<=0.75n-64", 10.3 },
{ "PREC|LI:C2C:5//53/a<=1-64", 8.95 },
{ "PREC|LI:C2C:5//53/a<=1.4-64", 17.1 },
{ "PREC|LI:C2C:5//53/a<=1.4h-64", 21.4 },
{ "PREC|LI:C2C:5//53/a<=1.4n-64", 11.6 },
{ "PREC|LI:C2C:5//53/a<=1e+10-64", 15.9 },
{ "PREC|LI:C2C:5//53/a<=1h-64", 8 },
{ "PREC|LI:C2C:5//53/a<=1n-64", 8 },
{ "PREC|LI:C2C:5//53/a<=4-64", 12.3 },
{ "PREC|LI:C2C:5//53/a<=4h-64", 13.4 },
{ "PREC|LI:C2C:5//53/a<=4n-64", 9.43 },
{ "PREC|LI:C2C:5//53/a>1e+10-64", 25.4 },
{ "PREC|LI:C2C:5//53/r<=0.25-64", 8.23 },
{ "PREC|LI:C2C:5//53/r<=0.75-64", 8.39 },
{ "PREC|LI:C2C:5//53/r<=0.75n-64", 9 },
{ "PREC|LI:C2C:5//53/r<=1-64", 7.9 },
{ "PREC|LI:C2C:5//53/r<=1.4-64", 8.02 },
{ "PREC|LI:C2C:5//53/r<=1.4n-64", 7.18 },
{ "PREC|LI:C2C:5//53/r<=1e+10-64", 18.2 },
{ "PREC|LI:C2C:5//53/r<=1n-64", 7.18 },
{ "PREC|LI:C2C:5//53/r<=4-64", 8.3 },
{ "PREC|LI:C2C:5//53/r<=4h-64", 12.2 },
{ "PREC|LI:C2C:5//53/r<=4n-64", 8.07 },
{ "PREC|LI:C2C:5//53/r>1e+10-64", 26.1 },
{ "PREC|LI:C2C:6//53/a<=0.25-64", 9.41 },
{ "PREC|LI:C2C:6//53/a<=0.75-64", 10.1 },
{ "PREC|LI:C2C:6//53/a<=0.75n-64", 14.9 },
{ "PREC|LI:C2C:6//53/a<=1-64", 9.16 },
{ "PREC|LI:C2C:6//53/a<=1.4-64", 19.4 },
{ "PREC|LI:C2C:6//53/a<=1.4h-64", 22 },
{ "PREC|LI:C2C:6//53/a<=1.4n-64", 10.5 },
{ "PREC|LI:C2C:6//53/a<=1e+10-64", 20 },
{ "PREC|LI:C2C:6//53/a<=1h-64", 9.38 },
{ "PREC|LI:C2C:6//53/a<=1n-64", 8.25 },
{ "PREC|LI:C2C:6//53/a<=4-64", 9.55 },
{ "PREC|LI:C2C:6//53/a<=4h-64", 12.8 },
{ "PREC|LI:C2C:6//53/a<=4n-64", 10.6 },
{ "PREC|LI:C2C:6//53/a>1e+10-64", 35.2 },
{ "PREC|LI:C2C:6//53/r<=0.25-64", 8.31 },
{ "PREC|LI:C2C:6//53/r<=0.75-64", 8.55 },
{ "PREC|LI:C2C:6//53/r<=0.75n-64", 12.7 },
{ "PREC|LI:C2C:6//53/r<=1-64", 8.37 },
{ "PREC|LI:C2C:6//53/r<=1.4-64", 10.8 },
{ "PREC|LI:C2C:6//53/r<=1.4n-64", 7.5 },
{ "PREC|LI:C2C:6//53/r<=1e+10-64", 20.8 },
{ "PREC|LI:C2C:6//53/r<=1n-64", 7.77 },
{ "PREC|LI:C2C:6//53/r<=4-64", 8.81 },
{ "PREC|LI:C2C:6//53/r<=4h-64", 12.4 },
{ "PREC|LI:C2C:6//53/r<=4n-64", 8.25 },
{ "PREC|LI:C2C:6//53/r>1e+10-64", 30.2 },
{ "PREC|LI:R2R:2//24/x<=-1-53", 9.52 },
{ "PREC|LI:R2R:2//24/x<=-1-64", 9.52 },
{ "PREC|LI:R2R:2//24/x<=0-53", 9.14 },
{ "PREC|LI:R2R:2//24/x<=0-64", 9.14 },
{ "PREC|LI:R2R:2//24/x<=0.5-53", 9.35 },
{ "PREC|LI:R2R:2//24/x<=0.5-64", 9.35 },
{ "PREC|LI:R2R:2//24/x<=0.6-53", 12.7 },
{ "PREC|LI:R2R:2//24/x<=0.6-64", 12.7 },
{ "PREC|LI:R2R:2//24/x<=0.7-53", 9.68 },
{ "PREC|LI:R2R:2//24/x<=0.7-64", 9.68 },
{ "PREC|LI:R2R:2//24/x<=0.8-53", 8.2 },
{ "PREC|LI:R2R:2//24/x<=0.8-64", 8.2 },
{ "PREC|LI:R2R:2//24/x<=1-53", 7.39 },
{ "PREC|LI:R2R:2//24/x<=1-64", 7.39 },
{ "PREC|LI:R2R:2//24/x<=1.25-53", 7.14 },
{ "PREC|LI:R2R:2//24/x<=1.25-64", 7.14 },
{ "PREC|LI:R2R:2//24/x<=1.4-53", 7.28 },
{ "PREC|LI:R2R:2//24/x<=1.4-64", 7.28 },
{ "PREC|LI:R2R:2//24/x<=1.6-53", 7.24 },
{ "PREC|LI:R2R:2//24/x<=1.6-64", 7.24 },
{ "PREC|LI:R2R:2//24/x<=1.8-53", 7.3 },
{ "PREC|LI:R2R:2//24/x<=1.8-64", 7.3 },
{ "PREC|LI:R2R:2//24/x<=2-53", 7.45 },
{ "PREC|LI:R2R:2//24/x<=2-64", 7.45 },
{ "PREC|LI:R2R:2//24/x>2-53", 8.37 },
{ "PREC|LI:R2R:2//24/x>2-64", 8.37 },
{ "PREC|LI:R2R:2//53/x<=-1-64", 24.9 },
{ "PREC|LI:R2R:2//53/x<=0-64", 24.8 },
{ "PREC|LI:R2R:2//53/x<=0.5-64", 28.9 },
{ "PREC|LI:R2R:2//53/x<=0.6-64", 36.9 },
{ "PREC|LI:R2R:2//53/x<=0.7-64", 12.3 },
{ "PREC|LI:R2R:2//53/x<=0.8-64", 7.98 },
{ "PREC|LI:R2R:2//53/x<=1-64", 7.32 },
{ "PREC|LI:R2R:2//53/x<=1.25-64", 6.71 },
{ "PREC|LI:R2R:2//53/x<=1.4-64", 7.08 },
{ "PREC|LI:R2R:2//53/x<=1.6-64", 7.32 },
{ "PREC|LI:R2R:2//53/x<=1.8-64", 7.99 },
{ "PREC|LI:R2R:2//53/x<=2-64", 8.9 },
{ "PREC|LI:R2R:2//53/x>2-64", 8.63 },
{ "REALFN|LI:R2R:2//24/x<=-1", 9.52 },
{ "REALFN|LI:R2R:2//24/x<=0", 9.14 },
{ "REALFN|LI:R2R:2//24/x<=0.5", 9.35 },
{ "REALFN|LI:R2R:2//24/x<=0.6", 12.7 },
{ "REALFN|LI:R2R:2//24/x<=0.7", 9.5 },
{ "REALFN|LI:R2R:2//24/x<=0.8", 8.16 },
{ "REALFN|LI:R2R:2//24/x<=1", 6.41 },
{ "REALFN|LI:R2R:2//24/x<=1.25", 7.14 },
{ "REALFN|LI:R2R:2//24/x<=1.4", 7.28 },
{ "REALFN|LI:R2R:2//24/x<=1.6", 7.24 },
{ "REALFN|LI:R2R:2//24/x<=1.8", 7.3 },
{ "REALFN|LI:R2R:2//24/x<=2", 7.45 },
{ "REALFN|LI:R2R:2//24/x>2", 8.37 },
{ "REALFN|LI:R2R:2//53/x<=-1", 24.9 },
{ "REALFN|LI:R2R:2//53/x<=0", 24.1 },
{ "REALFN|LI:R2R:2//53/x<=0.5", 28.9 },
{ "REALFN|LI:R2R:2//53/x<=0.6", 36.8 },
{ "REALFN|LI:R2R:2//53/x<=0.7", 12.3 },
{ "REALFN|LI:R2R:2//53/x<=0.8", 7.63 },
{ "REALFN|LI:R2R:2//53/x<=1", 7.48 },
{ "REALFN|LI:R2R:2//53/x<=1.25", 5.7 },
{ "REALFN|LI:R2R:2//53/x<=1.4", 7.08 },
{ "REALFN|LI:R2R:2//53/x<=1.6", 7.32 },
{ "REALFN|LI:R2R:2//53/x<=1.8", 7.99 },
{ "REALFN|LI:R2R:2//53/x<=2", 8.9 },
{ "REALFN|LI:R2R:2//53/x>2", 8.63 },
{ "REALFN|LI:R2R:2//64/x<=-1", 11.6 },
{ "REALFN|LI:R2R:2//64/x<=0", 9.88 },
{ "REALFN|LI:R2R:2//64/x<=0.5", 10.6 },
{ "REALFN|LI:R2R:2//64/x<=0.6", 16 },
{ "REALFN|LI:R2R:2//64/x<=0.7", 8.7 },
{ "REALFN|LI:R2R:2//64/x<=0.8", 7.71 },
{ "REALFN|LI:R2R:2//64/x<=1", 6.38 },
{ "REALFN|LI:R2R:2//64/x<=1.25", 6.9 },
{ "REALFN|LI:R2R:2//64/x<=1.4", 7.12 },
{ "REALFN|LI:R2R:2//64/x<=1.6", 7.2 },
{ "REALFN|LI:R2R:2//64/x<=1.8", 7.17 },
{ "REALFN|LI:R2R:2//64/x<=2", 7.5 },
{ "REALFN|LI:R2R:2//64/x>2", 9.16 },
{ "REALFN|LI:R2R:3//53/x<=-1", 11.2 },
{ "REALFN|LI:R2R:3//53/x<=0", 7.99 },
{ "REALFN|LI:R2R:3//53/x<=0.5", 22.8 },
{ "REALFN|LI:R2R:3//53/x<=0.6", 36.7 },
{ "REALFN|LI:R2R:3//53/x<=0.7", 16.3 },
{ "REALFN|LI:R2R:3//53/x<=0.8", 7.98 },
{ "REALFN|LI:R2R:3//53/x<=1", 6.99 },
{ "REALFN|LI:R2R:3//53/x<=1.25", 6.13 },
{ "REALFN|LI:R2R:3//53/x<=1.4", 7.33 },
{ "REALFN|LI:R2R:3//53/x<=1.6", 7.66 },
{ "REALFN|LI:R2R:3//53/x<=1.8", 8.49 },
{ "REALFN|LI:R2R:3//53/x<=2", 8.71 },
{ "REALFN|LI:R2R:3//53/x>2", 10.4 },
{ "REALFN|LI:R2R:4//53/x<=-1", 16.2 },
{ "REALFN|LI:R2R:4//53/x<=0", 8.34 },
{ "REALFN|LI:R2R:4//53/x<=0.5", 17.1 },
{ "REALFN|LI:R2R:4//53/x<=0.6", 63.6 },
{ "REALFN|LI:R2R:4//53/x<=0.7", 150 },
{ "REALFN|LI:R2R:4//53/x<=0.8", 324 },
{ "REALFN|LI:R2R:4//53/x<=1", 5.75 },
{ "REALFN|LI:R2R:4//53/x<=1.25", 6.72 },
{ "REALFN|LI:R2R:4//53/x<=1.4", 194 },
{ "REALFN|LI:R2R:4//53/x<=1.6", 82.2 },
{ "REALFN|LI:R2R:4//53/x<=1.8", 22 },
{ "REALFN|LI:R2R:4//53/x<=2", 12.7 },
{ "REALFN|LI:R2R:4//53/x>2", 15.1 },
{ "REAL|LI:C2C:2//24/r<=0.25", 10.3 },
{ "REAL|LI:C2C:2//24/r<=0.75", 9.73 },
{ "REAL|LI:C2C:2//24/r<=0.75n", 13.6 },
{ "REAL|LI:C2C:2//24/r<=1", 9.57 },
{ "REAL|LI:C2C:2//24/r<=1.4", 15.9 },
{ "REAL|LI:C2C:2//24/r<=1e+10", 8.73 },
{ "REAL|LI:C2C:2//24/r<=1n", 7.26 },
{ "REAL|LI:C2C:2//24/r<=4", 8.55 },
{ "REAL|LI:C2C:2//24/r>1e+10", 9.01 },
{ "REAL|LI:C2C:2//53/r<=0.25", 8.71 },
{ "REAL|LI:C2C:2//53/r<=0.75", 18.1 },
{ "REAL|LI:C2C:2//53/r<=0.75n", 34.9 },
{ "REAL|LI:C2C:2//53/r<=1", 27.9 },
{ "REAL|LI:C2C:2//53/r<=1.4", 29 },
{ "REAL|LI:C2C:2//53/r<=1e+10", 8.97 },
{ "REAL|LI:C2C:2//53/r<=1n", 7.27 },
{ "REAL|LI:C2C:2//53/r<=4", 10.1 },
{ "REAL|LI:C2C:2//53/r>1e+10", 9.55 },
{ "REAL|LI:C2C:2//64/r<=0.25", 7.96 },
{ "REAL|LI:C2C:2//64/r<=0.75", 8.63 },
{ "REAL|LI:C2C:2//64/r<=0.75n", 15 },
{ "REAL|LI:C2C:2//64/r<=1", 11.1 },
{ "REAL|LI:C2C:2//64/r<=1.4", 14.3 },
{ "REAL|LI:C2C:2//64/r<=1e+10", 10.5 },
{ "REAL|LI:C2C:2//64/r<=1n", 7.28 },
{ "REAL|LI:C2C:2//64/r<=4", 8.13 },
{ "REAL|LI:C2C:2//64/r>1e+10", 12.2 },
{ "REAL|LI:C2C:3//53/r<=0.25", 8.81 },
{ "REAL|LI:C2C:3//53/r<=0.75", 12.3 },
{ "REAL|LI:C2C:3//53/r<=0.75n", 39.6 },
{ "REAL|LI:C2C:3//53/r<=1", 8.33 },
{ "REAL|LI:C2C:3//53/r<=1.4", 8.37 },
{ "REAL|LI:C2C:3//53/r<=1e+10", 11.6 },
{ "REAL|LI:C2C:3//53/r<=1n", 7.88 },
{ "REAL|LI:C2C:3//53/r<=4", 7.66 },
{ "REAL|LI:C2C:3//53/r>1e+10", 14.3 },
{ "REAL|LI:C2C:3//64/r<=0.25", 8.87 },
{ "REAL|LI:C2C:3//64/r<=0.75", 8.62 },
{ "REAL|LI:C2C:3//64/r<=0.75n", 13.1 },
{ "REAL|LI:C2C:3//64/r<=1", 8.12 },
{ "REAL|LI:C2C:3//64/r<=1.4", 8.04 },
{ "REAL|LI:C2C:3//64/r<=1e+10", 12.9 },
{ "REAL|LI:C2C:3//64/r<=1n", 7.15 },
{ "REAL|LI:C2C:3//64/r<=4", 7.71 },
{ "REAL|LI:C2C:3//64/r>1e+10", 17.1 },
{ "REAL|LI:C2C:4//53/r<=0.25", 8.93 },
{ "REAL|LI:C2C:4//53/r<=0.75", 11.3 },
{ "REAL|LI:C2C:4//53/r<=0.75n", 289 },
{ "REAL|LI:C2C:4//53/r<=1", 8.51 },
{ "REAL|LI:C2C:4//53/r<=1.4", 8.97 },
{ "REAL|LI:C2C:4//53/r<=1e+10", 15.6 },
{ "REAL|LI:C2C:4//53/r<=1n", 365 },
{ "REAL|LI:C2C:4//53/r<=4", 7.97 },
{ "REAL|LI:C2C:4//53/r>1e+10", 21.8 },
{ "REAL|LI:C2C:4//64/r<=0.25", 8.79 },
{ "REAL|LI:C2C:4//64/r<=0.75", 8.71 },
{ "REAL|LI:C2C:4//64/r<=0.75n", 17.1 },
{ "REAL|LI:C2C:4//64/r<=1", 7.85 },
{ "REAL|LI:C2C:4//64/r<=1.4", 14.1 },
{ "REAL|LI:C2C:4//64/r<=1e+10", 17 },
{ "REAL|LI:C2C:4//64/r<=1n", 7.23 },
{ "REAL|LI:C2C:4//64/r<=4", 12.8 },
{ "REAL|LI:C2C:4//64/r>1e+10", 26.6 },
{ "REAL|LI:C2C:5//53/r<=0.25", 8.23 },
{ "REAL|LI:C2C:5//53/r<=0.75", 8.23 },
{ "REAL|LI:C2C:5//53/r<=0.75n", 9 },
{ "REAL|LI:C2C:5//53/r<=1", 7.88 },
{ "REAL|LI:C2C:5//53/r<=1.4", 8.02 },
{ "REAL|LI:C2C:5//53/r<=1e+10", 18.2 },
{ "REAL|LI:C2C:5//53/r<=1n", 7.18 },
{ "REAL|LI:C2C:5//53/r<=4", 8.3 },
{ "REAL|LI:C2C:5//53/r>1e+10", 26.1 },
{ "REAL|LI:C2C:5//64/r<=0.25", 9.08 },
{ "REAL|LI:C2C:5//64/r<=0.75", 8.88 },
{ "REAL|LI:C2C:5//64/r<=0.75n", 8.07 },
{ "REAL|LI:C2C:5//64/r<=1", 7.82 },
{ "REAL|LI:C2C:5//64/r<=1.4", 8.28 },
{ "REAL|LI:C2C:5//64/r<=1e+10", 18 },
{ "REAL|LI:C2C:5//64/r<=1n", 6.99 },
{ "REAL|LI:C2C:5//64/r<=4", 8.7 },
{ "REAL|LI:C2C:5//64/r>1e+10", 29.2 },
{ "REAL|LI:C2C:6//53/r<=0.25", 8.31 },
{ "REAL|LI:C2C:6//53/r<=0.75", 8.55 },
{ "REAL|LI:C2C:6//53/r<=0.75n", 12.7 },
{ "REAL|LI:C2C:6//53/r<=1", 8.37 },
{ "REAL|LI:C2C:6//53/r<=1.4", 10.8 },
{ "REAL|LI:C2C:6//53/r<=1e+10", 20.8 },
{ "REAL|LI:C2C:6//53/r<=1n", 7.77 },
{ "REAL|LI:C2C:6//53/r<=4", 8.81 },
{ "REAL|LI:C2C:6//53/r>1e+10", 30.2 },
{ "REAL|LI:C2C:6//64/r<=0.25", 9.11 },
{ "REAL|LI:C2C:6//64/r<=0.75", 8.99 },
{ "REAL|LI:C2C:6//64/r<=0.75n", 8.38 },
{ "REAL|LI:C2C:6//64/r<=1", 7.92 },
{ "REAL|LI:C2C:6//64/r<=1.4", 13.7 },
{ "REAL|LI:C2C:6//64/r<=1e+10", 22.2 },
{ "REAL|LI:C2C:6//64/r<=1n", 7 },
{ "REAL|LI:C2C:6//64/r<=4", 11.9 },
{ "REAL|LI:C2C:6//64/r>1e+10", 38 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a<=0.3", 18.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a<=0.6", 14.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a<=1", 15.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a<=1.7", 14.5 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a<=4", 15.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=10a>4", 26.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a<=0.3", 74.6 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a<=0.6", 13.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a<=1", 14.3 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a<=1.7", 12.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a<=4", 14.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=120a>4", 121 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a<=0.3", 123 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a<=0.6", 11.9 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a<=1", 13.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a<=1.7", 13.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a<=4", 13.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=171a>4", 149 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a<=0.3", 8.18 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a<=0.6", 7.88 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a<=1", 8.44 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a<=1.7", 8.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a<=4", 7.84 },
{ "REAL|LI:NC2C:0/-1/53/m<=1a>4", 7.68 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a<=0.3", 31.9 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a<=0.6", 16.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a<=1", 14.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a<=1.7", 16.3 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a<=4", 18 },
{ "REAL|LI:NC2C:0/-1/53/m<=20a>4", 32.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a<=0.3", 9.28 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a<=0.6", 12.4 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a<=1", 17 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a<=1.7", 16.9 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a<=4", 11.4 },
{ "REAL|LI:NC2C:0/-1/53/m<=2a>4", 12.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a<=0.3", 220 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a<=0.6", 12 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a<=1", 12 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a<=1.7", 11.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a<=4", 19 },
{ "REAL|LI:NC2C:0/-1/53/m<=300a>4", 176 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a<=0.3", 44.3 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a<=0.6", 18.9 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a<=1", 12.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a<=1.7", 12.7 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a<=4", 13.4 },
{ "REAL|LI:NC2C:0/-1/53/m<=40a>4", 35.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a<=0.3", 21.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a<=0.6", 17.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a<=1", 17.3 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a<=1.7", 13.4 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a<=4", 16.3 },
{ "REAL|LI:NC2C:0/-1/53/m<=5a>4", 20.9 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a<=0.3", 63.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a<=0.6", 14.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a<=1", 12.2 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a<=1.7", 12.8 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a<=4", 11.1 },
{ "REAL|LI:NC2C:0/-1/53/m<=80a>4", 67 },
{ "REAL|LI:NC2C:0/0/53/r<=0.25", 12.8 },
{ "REAL|LI:NC2C:0/0/53/r<=0.75", 12.8 },
{ "REAL|LI:NC2C:0/0/53/r<=0.75n", 12.6 },
{ "REAL|LI:NC2C:0/0/53/r<=1", 12.7 },
{ "REAL|LI:NC2C:0/0/53/r<=1.4", 13.3 },
{ "REAL|LI:NC2C:0/0/53/r<=1e+10", 13.1 },
{ "REAL|LI:NC2C:0/0/53/r<=1n", 12.1 },
{ "REAL|LI:NC2C:0/0/53/r<=4", 13.2 },
{ "REAL|LI:NC2C:0/0/53/r>1e+10", 13.5 },
{ "REAL|LI:NC2C:0/1/53/r<=0.25", 13.8 },
{ "REAL|LI:NC2C:0/1/53/r<=0.75", 13.4 },
{ "REAL|LI:NC2C:0/1/53/r<=0.75n", 13.3 },
{ "REAL|LI:NC2C:0/1/53/r<=1", 13 },
{ "REAL|LI:NC2C:0/1/53/r<=1.4", 13.1 },
{ "REAL|LI:NC2C:0/1/53/r<=1e+10", 13.3 },
{ "REAL|LI:NC2C:0/1/53/r<=1n", 12.2 },
{ "REAL|LI:NC2C:0/1/53/r<=4", 13.7 },
{ "REAL|LI:NC2C:0/1/53/r>1e+10", 14.5 },
{ "REAL|LI:NC2C:0/2/53/r<=0.25", 14.7 },
{ "REAL|LI:NC2C:0/2/53/r<=0.75", 24.1 },
{ "REAL|LI:NC2C:0/2/53/r<=0.75n", 46.6 },
{ "REAL|LI:NC2C:0/2/53/r<=1", 37.2 },
{ "REAL|LI:NC2C:0/2/53/r<=1.4", 38.6 },
{ "REAL|LI:NC2C:0/2/53/r<=1e+10", 15.8 },
{ "REAL|LI:NC2C:0/2/53/r<=1n", 13.3 },
{ "REAL|LI:NC2C:0/2/53/r<=4", 15.4 },
{ "REAL|LI:NC2C:0/2/53/r>1e+10", 15.2 },
{ "REAL|LI:NC2C:0/200+/53/r<=0.25", 6 },
{ "REAL|LI:NC2C:0/200+/53/r<=0.75", 6 },
{ "REAL|LI:NC2C:0/200+/53/r<=0.75n", 6 },
{ "REAL|LI:NC2C:0/200+/53/r<=1", 38 },
{ "REAL|LI:NC2C:0/200+/53/r<=1.4", 32.2 },
{ "REAL|LI:NC2C:0/200+/53/r<=1e+10", 8.07 },
{ "REAL|LI:NC2C:0/200+/53/r<=1n", 7.95 },
{ "REAL|LI:NC2C:0/200+/53/r<=4", 9.77 },
{ "REAL|LI:NC2C:0/200+/53/r>1e+10", 7.51 },
{ "REAL|LI:NC2C:0/3/53/r<=0.25", 14.8 },
{ "REAL|LI:NC2C:0/3/53/r<=0.75", 16.4 },
{ "REAL|LI:NC2C:0/3/53/r<=0.75n", 52.8 },
{ "REAL|LI:NC2C:0/3/53/r<=1", 14.3 },
{ "REAL|LI:NC2C:0/3/53/r<=1.4", 14.4 },
{ "REAL|LI:NC2C:0/3/53/r<=1e+10", 15.9 },
{ "REAL|LI:NC2C:0/3/53/r<=1n", 13.9 },
{ "REAL|LI:NC2C:0/3/53/r<=4", 13.7 },
{ "REAL|LI:NC2C:0/3/53/r>1e+10", 19.1 },
{ "REAL|LI:NC2C:0/30-199/53/r<=0.25", 6.56 },
{ "REAL|LI:NC2C:0/30-199/53/r<=0.75", 6.87 },
{ "REAL|LI:NC2C:0/30-199/53/r<=0.75n", 6.97 },
{ "REAL|LI:NC2C:0/30-199/53/r<=1", 39.4 },
{ "REAL|LI:NC2C:0/30-199/53/r<=1.4", 40.2 },
{ "REAL|LI:NC2C:0/30-199/53/r<=1e+10", 8.44 },
{ "REAL|LI:NC2C:0/30-199/53/r<=1n", 8.43 },
{ "REAL|LI:NC2C:0/30-199/53/r<=4", 9.1 },
{ "REAL|LI:NC2C:0/30-199/53/r>1e+10", 7.37 },
{ "REAL|LI:NC2C:0/4/53/r<=0.25", 14.9 },
{ "REAL|LI:NC2C:0/4/53/r<=0.75", 15.8 },
{ "REAL|LI:NC2C:0/4/53/r<=0.75n", 385 },
{ "REAL|LI:NC2C:0/4/53/r<=1", 14.5 },
{ "REAL|LI:NC2C:0/4/53/r<=1.4", 15 },
{ "REAL|LI:NC2C:0/4/53/r<=1e+10", 20.8 },
{ "REAL|LI:NC2C:0/4/53/r<=1n", 486 },
{ "REAL|LI:NC2C:0/4/53/r<=4", 14 },
{ "REAL|LI:NC2C:0/4/53/r>1e+10", 29 },
{ "REAL|LI:NC2C:0/5/53/r<=0.25", 14.2 },
{ "REAL|LI:NC2C:0/5/53/r<=0.75", 14.2 },
{ "REAL|LI:NC2C:0/5/53/r<=0.75n", 15 },
{ "REAL|LI:NC2C:0/5/53/r<=1", 13.9 },
{ "REAL|LI:NC2C:0/5/53/r<=1.4", 14 },
{ "REAL|LI:NC2C:0/5/53/r<=1e+10", 24.3 },
{ "REAL|LI:NC2C:0/5/53/r<=1n", 13.2 },
{ "REAL|LI:NC2C:0/5/53/r<=4", 14.3 },
{ "REAL|LI:NC2C:0/5/53/r>1e+10", 34.8 },
{ "REAL|LI:NC2C:0/6/53/r<=0.25", 14.3 },
{ "REAL|LI:NC2C:0/6/53/r<=0.75", 14.5 },
{ "REAL|LI:NC2C:0/6/53/r<=0.75n", 16.9 },
{ "REAL|LI:NC2C:0/6/53/r<=1", 14.4 },
{ "REAL|LI:NC2C:0/6/53/r<=1.4", 15.6 },
{ "REAL|LI:NC2C:0/6/53/r<=1e+10", 27.7 },
{ "REAL|LI:NC2C:0/6/53/r<=1n", 13.8 },
{ "REAL|LI:NC2C:0/6/53/r<=4", 14.8 },
{ "REAL|LI:NC2C:0/6/53/r>1e+10", 40.3 },
{ "REAL|LI:NC2C:0/7-29/53/r<=0.25", 2 },
{ "REAL|LI:NC2C:0/7-29/53/r<=0.75", 6 },
{ "REAL|LI:NC2C:0/7-29/53/r<=0.75n", 6 },
{ "REAL|LI:NC2C:0/7-29/53/r<=1", 41.2 },
{ "REAL|LI:NC2C:0/7-29/53/r<=1.4", 34.1 },
{ "REAL|LI:NC2C:0/7-29/53/r<=1e+10", 2 },
{ "REAL|LI:NC2C:0/7-29/53/r<=1n", 6 },
{ "REAL|LI:NC2C:0/7-29/53/r<=4", 2 },
{ "REAL|LI:NC2C:0/7-29/53/r>1e+10", 6 },
{ "REFL2|LI:C2C:2//24", 8.5 },
{ "REFL2|LI:C2C:2//53", 7.85 },
{ "REFL2|LI:C2C:2//64", 7.88 },
{ "REFL2|LI:R2R:2//24", 7.2 },
{ "REFL2|LI:R2R:2//53", 8.52 },
{ "REFL2|LI:R2R:2//64", 7.26 },
{ "REFL|CL:NR2R:0/1/53/t<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/1/53/t<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/1/53/t<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/1/53/t<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/1/53/t<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=2.95", 12.8 },
{ "REFL|CL:NR2R:0/1/53/t<=3.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t<=3.141", 12.7 },
{ "REFL|CL:NR2R:0/1/53/t>3.141", 12.6 },
{ "REFL|CL:NR2R:0/1/53/u<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/1/53/u<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/1/53/u<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/1/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/1/53/v<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/1/53/v<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/1/53/v<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/1/53/v<=2.95", 12.8 },
{ "REFL|CL:NR2R:0/1/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/1/53/v<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/1/53/v>3.141", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=1", 13.2 },
{ "REFL|CL:NR2R:0/2/53/t<=1.3", 13 },
{ "REFL|CL:NR2R:0/2/53/t<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/2/53/t<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/2/53/t<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/2/53/t<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/2/53/t<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/t<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/2/53/t>3.141", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/2/53/u<=1", 12.7 },
{ "REFL|CL:NR2R:0/2/53/u<=1.3", 13 },
{ "REFL|CL:NR2R:0/2/53/u<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/2/53/u<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/2/53/u<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/2/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/2/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=1", 12.9 },
{ "REFL|CL:NR2R:0/2/53/v<=1.3", 13 },
{ "REFL|CL:NR2R:0/2/53/v<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/2/53/v<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/2/53/v<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/2/53/v<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/2/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/2/53/v>3.141", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/t<=0.1", 6.63 },
{ "REFL|CL:NR2R:0/200+/53/t<=0.5", 6.67 },
{ "REFL|CL:NR2R:0/200+/53/t<=1", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/t<=1.3", 6.64 },
{ "REFL|CL:NR2R:0/200+/53/t<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/t<=1.64", 6.64 },
{ "REFL|CL:NR2R:0/200+/53/t<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/t<=1e-06", 6.67 },
{ "REFL|CL:NR2R:0/200+/53/t<=2.1", 6.65 },
{ "REFL|CL:NR2R:0/200+/53/t<=2.6", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/t<=2.95", 6.61 },
{ "REFL|CL:NR2R:0/200+/53/t<=3.1", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/t<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/t>3.141", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=1", 6.64 },
{ "REFL|CL:NR2R:0/200+/53/u<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/u<=2.6", 6.64 },
{ "REFL|CL:NR2R:0/200+/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/v<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/v<=0.5", 6.67 },
{ "REFL|CL:NR2R:0/200+/53/v<=1", 6.65 },
{ "REFL|CL:NR2R:0/200+/53/v<=1.3", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/v<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/v<=1.64", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/v<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/v<=1e-06", 6.64 },
{ "REFL|CL:NR2R:0/200+/53/v<=2.1", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/v<=2.6", 6.65 },
{ "REFL|CL:NR2R:0/200+/53/v<=2.95", 6.66 },
{ "REFL|CL:NR2R:0/200+/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/200+/53/v<=3.141", 12.7 },
{ "REFL|CL:NR2R:0/200+/53/v>3.141", 6.66 },
{ "REFL|CL:NR2R:0/3/53/t<=0.1", 12.8 },
{ "REFL|CL:NR2R:0/3/53/t<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/3/53/t<=1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/t<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/3/53/t<=1.5", 13.9 },
{ "REFL|CL:NR2R:0/3/53/t<=1.64", 14.5 },
{ "REFL|CL:NR2R:0/3/53/t<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/3/53/t<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/3/53/t<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/t<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/3/53/t<=2.95", 12.8 },
{ "REFL|CL:NR2R:0/3/53/t<=3.1", 14.2 },
{ "REFL|CL:NR2R:0/3/53/t<=3.141", 14.3 },
{ "REFL|CL:NR2R:0/3/53/t>3.141", 14.4 },
{ "REFL|CL:NR2R:0/3/53/u<=0.1", 12.8 },
{ "REFL|CL:NR2R:0/3/53/u<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/3/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/3/53/u<=1e-06", 12.8 },
{ "REFL|CL:NR2R:0/3/53/u<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/3/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/3/53/u<=3.1", 13 },
{ "REFL|CL:NR2R:0/3/53/v<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/v<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/3/53/v<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/3/53/v<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/3/53/v<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/3/53/v<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/3/53/v<=3.1", 12.8 },
{ "REFL|CL:NR2R:0/3/53/v<=3.141", 15 },
{ "REFL|CL:NR2R:0/3/53/v>3.141", 15.4 },
{ "REFL|CL:NR2R:0/30-199/53/t<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/t<=0.5", 7.44 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1", 7.42 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/t<=1e-06", 7.08 },
{ "REFL|CL:NR2R:0/30-199/53/t<=2.1", 7 },
{ "REFL|CL:NR2R:0/30-199/53/t<=2.6", 6.72 },
{ "REFL|CL:NR2R:0/30-199/53/t<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/t<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/t<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/t>3.141", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/u<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/u<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/u<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/v<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/v<=0.5", 6.82 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1", 6.65 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1.64", 7.39 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/30-199/53/v<=1e-06", 8.08 },
{ "REFL|CL:NR2R:0/30-199/53/v<=2.1", 6.66 },
{ "REFL|CL:NR2R:0/30-199/53/v<=2.6", 6.67 },
{ "REFL|CL:NR2R:0/30-199/53/v<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/v<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/30-199/53/v>3.141", 7.18 },
{ "REFL|CL:NR2R:0/4/53/t<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/4/53/t<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/4/53/t<=1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/t<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/4/53/t<=1.5", 17.6 },
{ "REFL|CL:NR2R:0/4/53/t<=1.64", 17.6 },
{ "REFL|CL:NR2R:0/4/53/t<=1.8", 12.9 },
{ "REFL|CL:NR2R:0/4/53/t<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/4/53/t<=2.1", 12.9 },
{ "REFL|CL:NR2R:0/4/53/t<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/4/53/t<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/4/53/t<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/t<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/4/53/t>3.141", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=1", 12.7 },
{ "REFL|CL:NR2R:0/4/53/u<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=1.5", 16.3 },
{ "REFL|CL:NR2R:0/4/53/u<=1.64", 13.5 },
{ "REFL|CL:NR2R:0/4/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/4/53/u<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/4/53/u<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/4/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/v<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/v<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=1", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=1.5", 16.9 },
{ "REFL|CL:NR2R:0/4/53/v<=1.64", 13.1 },
{ "REFL|CL:NR2R:0/4/53/v<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=2.1", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/4/53/v<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/4/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/4/53/v<=3.141", 12.7 },
{ "REFL|CL:NR2R:0/4/53/v>3.141", 12.7 },
{ "REFL|CL:NR2R:0/5/53/t<=0.1", 14.2 },
{ "REFL|CL:NR2R:0/5/53/t<=0.5", 13.9 },
{ "REFL|CL:NR2R:0/5/53/t<=1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=1e-06", 12.9 },
{ "REFL|CL:NR2R:0/5/53/t<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/5/53/t<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/5/53/t<=3.1", 12.7 },
{ "REFL|CL:NR2R:0/5/53/t<=3.141", 13.2 },
{ "REFL|CL:NR2R:0/5/53/t>3.141", 13.3 },
{ "REFL|CL:NR2R:0/5/53/u<=0.1", 13 },
{ "REFL|CL:NR2R:0/5/53/u<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/5/53/u<=1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=1.5", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=1.64", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/5/53/u<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/u<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/5/53/u<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/5/53/u<=3.1", 12.8 },
{ "REFL|CL:NR2R:0/5/53/v<=0.1", 13.7 },
{ "REFL|CL:NR2R:0/5/53/v<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/5/53/v<=1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/v<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/5/53/v<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/5/53/v<=1.64", 12.7 },
{ "REFL|CL:NR2R:0/5/53/v<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/5/53/v<=1e-06", 8.9 },
{ "REFL|CL:NR2R:0/5/53/v<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/v<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/5/53/v<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/5/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/5/53/v<=3.141", 15.1 },
{ "REFL|CL:NR2R:0/5/53/v>3.141", 15 },
{ "REFL|CL:NR2R:0/6/53/t<=0.1", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/6/53/t<=1", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=1.5", 13.4 },
{ "REFL|CL:NR2R:0/6/53/t<=1.64", 14.2 },
{ "REFL|CL:NR2R:0/6/53/t<=1.8", 13.5 },
{ "REFL|CL:NR2R:0/6/53/t<=1e-06", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=2.1", 12.8 },
{ "REFL|CL:NR2R:0/6/53/t<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/6/53/t<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/t<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/6/53/t>3.141", 12.7 },
{ "REFL|CL:NR2R:0/6/53/u<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=0.5", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=1.3", 12.7 },
{ "REFL|CL:NR2R:0/6/53/u<=1.5", 13 },
{ "REFL|CL:NR2R:0/6/53/u<=1.64", 14.9 },
{ "REFL|CL:NR2R:0/6/53/u<=1.8", 12.7 },
{ "REFL|CL:NR2R:0/6/53/u<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=2.6", 12.7 },
{ "REFL|CL:NR2R:0/6/53/u<=2.95", 12.6 },
{ "REFL|CL:NR2R:0/6/53/u<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=0.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=0.5", 12.7 },
{ "REFL|CL:NR2R:0/6/53/v<=1", 12.7 },
{ "REFL|CL:NR2R:0/6/53/v<=1.3", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=1.5", 13.1 },
{ "REFL|CL:NR2R:0/6/53/v<=1.64", 13.5 },
{ "REFL|CL:NR2R:0/6/53/v<=1.8", 13 },
{ "REFL|CL:NR2R:0/6/53/v<=1e-06", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=2.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=2.6", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=2.95", 12.7 },
{ "REFL|CL:NR2R:0/6/53/v<=3.1", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v<=3.141", 12.6 },
{ "REFL|CL:NR2R:0/6/53/v>3.141", 12.7 },
{ "REFL|CL:NR2R:0/7-29/53/t<=0.1", 6.95 },
{ "REFL|CL:NR2R:0/7-29/53/t<=0.5", 6.67 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1.3", 6.67 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1.5", 6.95 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1.64", 7.88 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1.8", 6.9 },
{ "REFL|CL:NR2R:0/7-29/53/t<=1e-06", 6.83 },
{ "REFL|CL:NR2R:0/7-29/53/t<=2.1", 6.81 },
{ "REFL|CL:NR2R:0/7-29/53/t<=2.6", 6.84 },
{ "REFL|CL:NR2R:0/7-29/53/t<=2.95", 10.6 },
{ "REFL|CL:NR2R:0/7-29/53/t<=3.1", 21.7 },
{ "REFL|CL:NR2R:0/7-29/53/t<=3.141", 58.1 },
{ "REFL|CL:NR2R:0/7-29/53/t>3.141", 98.2 },
{ "REFL|CL:NR2R:0/7-29/53/u<=0.1", 13 },
{ "REFL|CL:NR2R:0/7-29/53/u<=0.5", 6.63 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1.3", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1.5", 12.7 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1.64", 7.33 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/7-29/53/u<=1e-06", 6.96 },
{ "REFL|CL:NR2R:0/7-29/53/u<=2.1", 6.65 },
{ "REFL|CL:NR2R:0/7-29/53/u<=2.6", 6.73 },
{ "REFL|CL:NR2R:0/7-29/53/u<=2.95", 15 },
{ "REFL|CL:NR2R:0/7-29/53/u<=3.1", 30.5 },
{ "REFL|CL:NR2R:0/7-29/53/v<=0.1", 6.84 },
{ "REFL|CL:NR2R:0/7-29/53/v<=0.5", 6.65 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1", 6.67 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1.3", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1.5", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1.64", 7.39 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1.8", 12.6 },
{ "REFL|CL:NR2R:0/7-29/53/v<=1e-06", 6.96 },
{ "REFL|CL:NR2R:0/7-29/53/v<=2.1", 6.66 },
{ "REFL|CL:NR2R:0/7-29/53/v<=2.6", 7.03 },
{ "REFL|CL:NR2R:0/7-29/53/v<=2.95", 11.3 },
{ "REFL|CL:NR2R:0/7-29/53/v<=3.1", 41.8 },
{ "REFL|CL:NR2R:0/7-29/53/v<=3.141", 56.3 },
{ "REFL|CL:NR2R:0/7-29/53/v>3.141", 95.2 },
{ "REFL|CL:R2R:1//53/t<=0.1", 6.96 },
{ "REFL|CL:R2R:1//53/t<=0.5", 6.96 },
{ "REFL|CL:R2R:1//53/t<=1", 6.9 },
{ "REFL|CL:R2R:1//53/t<=1.3", 7.1 },
{ "REFL|CL:R2R:1//53/t<=1.5", 6.93 },
{ "REFL|CL:R2R:1//53/t<=1.64", 6.86 },
{ "REFL|CL:R2R:1//53/t<=1.8", 6.81 },
{ "REFL|CL:R2R:1//53/t<=1e-06", 7 },
{ "REFL|CL:R2R:1//53/t<=2.1", 6.94 },
{ "REFL|CL:R2R:1//53/t<=2.6", 6.99 },
{ "REFL|CL:R2R:1//53/t<=2.95", 7.18 },
{ "REFL|CL:R2R:1//53/t<=3.1", 12.7 },
{ "REFL|CL:R2R:1//53/t<=3.141", 12.7 },
{ "REFL|CL:R2R:1//53/t>3.141", 7.4 },
{ "REFL|CL:R2R:1//53/u<=0.1", 12.7 },
{ "REFL|CL:R2R:1//53/u<=0.5", 12.7 },
{ "REFL|CL:R2R:1//53/u<=1", 6.65 },
{ "REFL|CL:R2R:1//53/u<=1.3", 12.7 },
{ "REFL|CL:R2R:1//53/u<=1.5", 12.6 },
{ "REFL|CL:R2R:1//53/u<=1.64", 12.7 },
{ "REFL|CL:R2R:1//53/u<=1.8", 12.7 },
{ "REFL|CL:R2R:1//53/u<=1e-06", 12.6 },
{ "REFL|CL:R2R:1//53/u<=2.1", 12.7 },
{ "REFL|CL:R2R:1//53/u<=2.6", 7.08 },
{ "REFL|CL:R2R:1//53/u<=2.95", 12.7 },
{ "REFL|CL:R2R:1//53/u<=3.1", 12.6 },
{ "REFL|CL:R2R:1//53/v<=0.1", 12.7 },
{ "REFL|CL:R2R:1//53/v<=0.5", 6.66 },
{ "REFL|CL:R2R:1//53/v<=1", 6.65 },
{ "REFL|CL:R2R:1//53/v<=1.3", 6.64 },
{ "REFL|CL:R2R:1//53/v<=1.5", 12.6 },
{ "REFL|CL:R2R:1//53/v<=1.64", 6.66 },
{ "REFL|CL:R2R:1//53/v<=1.8", 12.7 },
{ "REFL|CL:R2R:1//53/v<=1e-06", 12.6 },
{ "REFL|CL:R2R:1//53/v<=2.1", 6.67 },
{ "REFL|CL:R2R:1//53/v<=2.6", 6.67 },
{ "REFL|CL:R2R:1//53/v<=2.95", 6.9 },
{ "REFL|CL:R2R:1//53/v<=3.1", 12.6 },
{ "REFL|CL:R2R:1//53/v<=3.141", 12.6 },
{ "REFL|CL:R2R:1//53/v>3.141", 7.41 },
{ "REFL|CL:R2R:2//53/t<=0.1", 7.71 },
{ "REFL|CL:R2R:2//53/t<=0.5", 7 },
{ "REFL|CL:R2R:2//53/t<=1", 7.6 },
{ "REFL|CL:R2R:2//53/t<=1.3", 8.2 },
{ "REFL|CL:R2R:2//53/t<=1.5", 7.73 },
{ "REFL|CL:R2R:2//53/t<=1.64", 8.86 },
{ "REFL|CL:R2R:2//53/t<=1.8", 8.62 },
{ "REFL|CL:R2R:2//53/t<=1e-06", 6.66 },
{ "REFL|CL:R2R:2//53/t<=2.1", 8.46 },
{ "REFL|CL:R2R:2//53/t<=2.6", 8.04 },
{ "REFL|CL:R2R:2//53/t<=2.95", 7.07 },
{ "REFL|CL:R2R:2//53/t<=3.1", 6.96 },
{ "REFL|CL:R2R:2//53/t<=3.141", 12.6 },
{ "REFL|CL:R2R:2//53/t>3.141", 6.92 },
{ "REFL|CL:R2R:2//53/u<=0.1", 12.6 },
{ "REFL|CL:R2R:2//53/u<=0.5", 6.66 },
{ "REFL|CL:R2R:2//53/u<=1", 8.21 },
{ "REFL|CL:R2R:2//53/u<=1.3", 7.96 },
{ "REFL|CL:R2R:2//53/u<=1.5", 12.6 },
{ "REFL|CL:R2R:2//53/u<=1.64", 7.67 },
{ "REFL|CL:R2R:2//53/u<=1.8", 12.6 },
{ "REFL|CL:R2R:2//53/u<=1e-06", 6.61 },
{ "REFL|CL:R2R:2//53/u<=2.1", 7.74 },
{ "REFL|CL:R2R:2//53/u<=2.6", 7.64 },
{ "REFL|CL:R2R:2//53/u<=2.95", 7.25 },
{ "REFL|CL:R2R:2//53/u<=3.1", 12.6 },
{ "REFL|CL:R2R:2//53/v<=0.1", 6.69 },
{ "REFL|CL:R2R:2//53/v<=0.5", 6.65 },
{ "REFL|CL:R2R:2//53/v<=1", 7.95 },
{ "REFL|CL:R2R:2//53/v<=1.3", 7.98 },
{ "REFL|CL:R2R:2//53/v<=1.5", 6.95 },
{ "REFL|CL:R2R:2//53/v<=1.64", 6.66 },
{ "REFL|CL:R2R:2//53/v<=1.8", 7.09 },
{ "REFL|CL:R2R:2//53/v<=1e-06", 6.66 },
{ "REFL|CL:R2R:2//53/v<=2.1", 7 },
{ "REFL|CL:R2R:2//53/v<=2.6", 6.88 },
{ "REFL|CL:R2R:2//53/v<=2.95", 6.64 },
{ "REFL|CL:R2R:2//53/v<=3.1", 6.64 },
{ "REFL|CL:R2R:2//53/v<=3.141", 12.6 },
{ "REFL|CL:R2R:2//53/v>3.141", 6.65 },
{ "REFL|CL:R2R:2//64/t<=0.1", 7.78 },
{ "REFL|CL:R2R:2//64/t<=0.5", 8.05 },
{ "REFL|CL:R2R:2//64/t<=1", 8.7 },
{ "REFL|CL:R2R:2//64/t<=1.3", 8.31 },
{ "REFL|CL:R2R:2//64/t<=1.5", 7.75 },
{ "REFL|CL:R2R:2//64/t<=1.64", 13.7 },
{ "REFL|CL:R2R:2//64/t<=1.8", 12.8 },
{ "REFL|CL:R2R:2//64/t<=1e-06", 6.66 },
{ "REFL|CL:R2R:2//64/t<=2.1", 8.67 },
{ "REFL|CL:R2R:2//64/t<=2.6", 7.96 },
{ "REFL|CL:R2R:2//64/t<=2.95", 7.09 },
{ "REFL|CL:R2R:2//64/t<=3.1", 12.6 },
{ "REFL|CL:R2R:2//64/t<=3.141", 12.6 },
{ "REFL|CL:R2R:2//64/t>3.141", 6.6 },
{ "REFL|CL:R2R:2//64/u<=0.1", 12.6 },
{ "REFL|CL:R2R:2//64/u<=0.5", 12.6 },
{ "REFL|CL:R2R:2//64/u<=1", 8.14 },
{ "REFL|CL:R2R:2//64/u<=1.3", 13 },
{ "REFL|CL:R2R:2//64/u<=1.5", 12.6 },
{ "REFL|CL:R2R:2//64/u<=1.64", 12.6 },
{ "REFL|CL:R2R:2//64/u<=1.8", 12.6 },
{ "REFL|CL:R2R:2//64/u<=1e-06", 6.59 },
{ "REFL|CL:R2R:2//64/u<=2.1", 12.6 },
{ "REFL|CL:R2R:2//64/u<=2.6", 7.41 },
{ "REFL|CL:R2R:2//64/u<=2.95", 12.6 },
{ "REFL|CL:R2R:2//64/u<=3.1", 12.6 },
{ "REFL|CL:R2R:2//64/v<=0.1", 12.6 },
{ "REFL|CL:R2R:2//64/v<=0.5", 6.61 },
{ "REFL|CL:R2R:2//64/v<=1", 8.08 },
{ "REFL|CL:R2R:2//64/v<=1.3", 7.95 },
{ "REFL|CL:R2R:2//64/v<=1.5", 12.6 },
{ "REFL|CL:R2R:2//64/v<=1.64", 8.01 },
{ "REFL|CL:R2R:2//64/v<=1.8", 12.6 },
{ "REFL|CL:R2R:2//64/v<=1e-06", 6.62 },
{ "REFL|CL:R2R:2//64/v<=2.1", 6.92 },
{ "REFL|CL:R2R:2//64/v<=2.6", 6.77 },
{ "REFL|CL:R2R:2//64/v<=2.95", 6.64 },
{ "REFL|CL:R2R:2//64/v<=3.1", 12.6 },
{ "REFL|CL:R2R:2//64/v<=3.141", 12.6 },
{ "REFL|CL:R2R:2//64/v>3.141", 6.61 },
{ "REFL|CL:R2R:3//53/t<=0.1", 7.21 },
{ "REFL|CL:R2R:3//53/t<=0.5", 6.67 },
{ "REFL|CL:R2R:3//53/t<=1", 6.97 },
{ "REFL|CL:R2R:3//53/t<=1.3", 9.52 },
{ "REFL|CL:R2R:3//53/t<=1.5", 11.6 },
{ "REFL|CL:R2R:3//53/t<=1.64", 11.7 },
{ "REFL|CL:R2R:3//53/t<=1.8", 7.39 },
{ "REFL|CL:R2R:3//53/t<=1e-06", 6.67 },
{ "REFL|CL:R2R:3//53/t<=2.1", 7.73 },
{ "REFL|CL:R2R:3//53/t<=2.6", 7.95 },
{ "REFL|CL:R2R:3//53/t<=2.95", 9.37 },
{ "REFL|CL:R2R:3//53/t<=3.1", 11.8 },
{ "REFL|CL:R2R:3//53/t<=3.141", 14.3 },
{ "REFL|CL:R2R:3//53/t>3.141", 12 },
{ "REFL|CL:R2R:3//53/u<=0.1", 12.7 },
{ "REFL|CL:R2R:3//53/u<=0.5", 6.66 },
{ "REFL|CL:R2R:3//53/u<=1", 6.65 },
{ "REFL|CL:R2R:3//53/u<=1.3", 6.99 },
{ "REFL|CL:R2R:3//53/u<=1.5", 12.7 },
{ "REFL|CL:R2R:3//53/u<=1.64", 7.56 },
{ "REFL|CL:R2R:3//53/u<=1.8", 12.6 },
{ "REFL|CL:R2R:3//53/u<=1e-06", 7.2 },
{ "REFL|CL:R2R:3//53/u<=2.1", 7.29 },
{ "REFL|CL:R2R:3//53/u<=2.6", 7.59 },
{ "REFL|CL:R2R:3//53/u<=2.95", 9.06 },
{ "REFL|CL:R2R:3//53/u<=3.1", 13 },
{ "REFL|CL:R2R:3//53/v<=0.1", 7.2 },
{ "REFL|CL:R2R:3//53/v<=0.5", 6.66 },
{ "REFL|CL:R2R:3//53/v<=1", 6.66 },
{ "REFL|CL:R2R:3//53/v<=1.3", 6.92 },
{ "REFL|CL:R2R:3//53/v<=1.5", 7.04 },
{ "REFL|CL:R2R:3//53/v<=1.64", 6.67 },
{ "REFL|CL:R2R:3//53/v<=1.8", 6.64 },
{ "REFL|CL:R2R:3//53/v<=1e-06", 7.2 },
{ "REFL|CL:R2R:3//53/v<=2.1", 6.74 },
{ "REFL|CL:R2R:3//53/v<=2.6", 6.83 },
{ "REFL|CL:R2R:3//53/v<=2.95", 7.97 },
{ "REFL|CL:R2R:3//53/v<=3.1", 12.8 },
{ "REFL|CL:R2R:3//53/v<=3.141", 13 },
{ "REFL|CL:R2R:3//53/v>3.141", 12.8 },
{ "REFL|CL:R2R:3//64/t<=0.1", 7.33 },
{ "REFL|CL:R2R:3//64/t<=0.5", 7.71 },
{ "REFL|CL:R2R:3//64/t<=1", 9.04 },
{ "REFL|CL:R2R:3//64/t<=1.3", 10.4 },
{ "REFL|CL:R2R:3//64/t<=1.5", 15.8 },
{ "REFL|CL:R2R:3//64/t<=1.64", 190 },
{ "REFL|CL:R2R:3//64/t<=1.8", 76 },
{ "REFL|CL:R2R:3//64/t<=1e-06", 6.77 },
{ "REFL|CL:R2R:3//64/t<=2.1", 9.8 },
{ "REFL|CL:R2R:3//64/t<=2.6", 8.29 },
{ "REFL|CL:R2R:3//64/t<=2.95", 9.55 },
{ "REFL|CL:R2R:3//64/t<=3.1", 13.1 },
{ "REFL|CL:R2R:3//64/t<=3.141", 17.4 },
{ "REFL|CL:R2R:3//64/t>3.141", 13 },
{ "REFL|CL:R2R:3//64/u<=0.1", 12.8 },
{ "REFL|CL:R2R:3//64/u<=0.5", 12.6 },
{ "REFL|CL:R2R:3//64/u<=1", 6.72 },
{ "REFL|CL:R2R:3//64/u<=1.3", 12.6 },
{ "REFL|CL:R2R:3//64/u<=1.5", 12.6 },
{ "REFL|CL:R2R:3//64/u<=1.64", 67.1 },
{ "REFL|CL:R2R:3//64/u<=1.8", 34.5 },
{ "REFL|CL:R2R:3//64/u<=1e-06", 12.7 },
{ "REFL|CL:R2R:3//64/u<=2.1", 12.6 },
{ "REFL|CL:R2R:3//64/u<=2.6", 8.06 },
{ "REFL|CL:R2R:3//64/u<=2.95", 13 },
{ "REFL|CL:R2R:3//64/u<=3.1", 13.1 },
{ "REFL|CL:R2R:3//64/v<=0.1", 12.7 },
{ "REFL|CL:R2R:3//64/v<=0.5", 6.66 },
{ "REFL|CL:R2R:3//64/v<=1", 6.78 },
{ "REFL|CL:R2R:3//64/v<=1.3", 6.95 },
{ "REFL|CL:R2R:3//64/v<=1.5", 12.6 },
{ "REFL|CL:R2R:3//64/v<=1.64", 40.4 },
{ "REFL|CL:R2R:3//64/v<=1.8", 16.1 },
{ "REFL|CL:R2R:3//64/v<=1e-06", 7.29 },
{ "REFL|CL:R2R:3//64/v<=2.1", 6.93 },
{ "REFL|CL:R2R:3//64/v<=2.6", 7.04 },
{ "REFL|CL:R2R:3//64/v<=2.95", 8.03 },
{ "REFL|CL:R2R:3//64/v<=3.1", 13.1 },
{ "REFL|CL:R2R:3//64/v<=3.141", 13.8 },
{ "REFL|CL:R2R:3//64/v>3.141", 11.9 },
{ "REFL|CL:R2R:4//53/t<=0.1", 7.07 },
{ "REFL|CL:R2R:4//53/t<=0.5", 6.66 },
{ "REFL|CL:R2R:4//53/t<=1", 6.94 },
{ "REFL|CL:R2R:4//53/t<=1.3", 9.54 },
{ "REFL|CL:R2R:4//53/t<=1.5", 14.7 },
{ "REFL|CL:R2R:4//53/t<=1.64", 14.6 },
{ "REFL|CL:R2R:4//53/t<=1.8", 9.76 },
{ "REFL|CL:R2R:4//53/t<=1e-06", 6.66 },
{ "REFL|CL:R2R:4//53/t<=2.1", 8.84 },
{ "REFL|CL:R2R:4//53/t<=2.6", 7.97 },
{ "REFL|CL:R2R:4//53/t<=2.95", 7.09 },
{ "REFL|CL:R2R:4//53/t<=3.1", 6.96 },
{ "REFL|CL:R2R:4//53/t<=3.141", 12.6 },
{ "REFL|CL:R2R:4//53/t>3.141", 6.92 },
{ "REFL|CL:R2R:4//53/u<=0.1", 12.6 },
{ "REFL|CL:R2R:4//53/u<=0.5", 6.65 },
{ "REFL|CL:R2R:4//53/u<=1", 6.9 },
{ "REFL|CL:R2R:4//53/u<=1.3", 8.31 },
{ "REFL|CL:R2R:4//53/u<=1.5", 13.6 },
{ "REFL|CL:R2R:4//53/u<=1.64", 11.3 },
{ "REFL|CL:R2R:4//53/u<=1.8", 12.6 },
{ "REFL|CL:R2R:4//53/u<=1e-06", 6.67 },
{ "REFL|CL:R2R:4//53/u<=2.1", 7.61 },
{ "REFL|CL:R2R:4//53/u<=2.6", 7.51 },
{ "REFL|CL:R2R:4//53/u<=2.95", 7.29 },
{ "REFL|CL:R2R:4//53/u<=3.1", 12.6 },
{ "REFL|CL:R2R:4//53/v<=0.1", 6.62 },
{ "REFL|CL:R2R:4//53/v<=0.5", 6.66 },
{ "REFL|CL:R2R:4//53/v<=1", 6.65 },
{ "REFL|CL:R2R:4//53/v<=1.3", 7.56 },
{ "REFL|CL:R2R:4//53/v<=1.5", 14.1 },
{ "REFL|CL:R2R:4//53/v<=1.64", 8.62 },
{ "REFL|CL:R2R:4//53/v<=1.8", 7.58 },
{ "REFL|CL:R2R:4//53/v<=1e-06", 6.65 },
{ "REFL|CL:R2R:4//53/v<=2.1", 7.08 },
{ "REFL|CL:R2R:4//53/v<=2.6", 6.85 },
{ "REFL|CL:R2R:4//53/v<=2.95", 6.62 },
{ "REFL|CL:R2R:4//53/v<=3.1", 12.6 },
{ "REFL|CL:R2R:4//53/v<=3.141", 12.7 },
{ "REFL|CL:R2R:4//53/v>3.141", 6.66 },
{ "REFL|CL:R2R:4//64/t<=0.1", 7.14 },
{ "REFL|CL:R2R:4//64/t<=0.5", 7.35 },
{ "REFL|CL:R2R:4//64/t<=1", 8.09 },
{ "REFL|CL:R2R:4//64/t<=1.3", 9.26 },
{ "REFL|CL:R2R:4//64/t<=1.5", 14.5 },
{ "REFL|CL:R2R:4//64/t<=1.64", 80.9 },
{ "REFL|CL:R2R:4//64/t<=1.8", 34.9 },
{ "REFL|CL:R2R:4//64/t<=1e-06", 6.64 },
{ "REFL|CL:R2R:4//64/t<=2.1", 10 },
{ "REFL|CL:R2R:4//64/t<=2.6", 8.71 },
{ "REFL|CL:R2R:4//64/t<=2.95", 7.4 },
{ "REFL|CL:R2R:4//64/t<=3.1", 12.6 },
{ "REFL|CL:R2R:4//64/t<=3.141", 12.6 },
{ "REFL|CL:R2R:4//64/t>3.141", 6.61 },
{ "REFL|CL:R2R:4//64/u<=0.1", 12.6 },
{ "REFL|CL:R2R:4//64/u<=0.5", 12.6 },
{ "REFL|CL:R2R:4//64/u<=1", 6.73 },
{ "REFL|CL:R2R:4//64/u<=1.3", 12.6 },
{ "REFL|CL:R2R:4//64/u<=1.5", 15.5 },
{ "REFL|CL:R2R:4//64/u<=1.64", 57.8 },
{ "REFL|CL:R2R:4//64/u<=1.8", 29 },
{ "REFL|CL:R2R:4//64/u<=1e-06", 12.6 },
{ "REFL|CL:R2R:4//64/u<=2.1", 12.7 },
{ "REFL|CL:R2R:4//64/u<=2.6", 7.4 },
{ "REFL|CL:R2R:4//64/u<=2.95", 12.6 },
{ "REFL|CL:R2R:4//64/u<=3.1", 12.6 },
{ "REFL|CL:R2R:4//64/v<=0.1", 12.6 },
{ "REFL|CL:R2R:4//64/v<=0.5", 6.63 },
{ "REFL|CL:R2R:4//64/v<=1", 6.6 },
{ "REFL|CL:R2R:4//64/v<=1.3", 7.72 },
{ "REFL|CL:R2R:4//64/v<=1.5", 13.9 },
{ "REFL|CL:R2R:4//64/v<=1.64", 44.6 },
{ "REFL|CL:R2R:4//64/v<=1.8", 17.4 },
{ "REFL|CL:R2R:4//64/v<=1e-06", 6.64 },
{ "REFL|CL:R2R:4//64/v<=2.1", 7.72 },
{ "REFL|CL:R2R:4//64/v<=2.6", 7.09 },
{ "REFL|CL:R2R:4//64/v<=2.95", 6.63 },
{ "REFL|CL:R2R:4//64/v<=3.1", 12.6 },
{ "REFL|CL:R2R:4//64/v<=3.141", 12.6 },
{ "REFL|CL:R2R:4//64/v>3.141", 6.61 },
{ "REFL|CL:R2R:5//53/t<=0.1", 11.8 },
{ "REFL|CL:R2R:5//53/t<=0.5", 9.61 },
{ "REFL|CL:R2R:5//53/t<=1", 7.59 },
{ "REFL|CL:R2R:5//53/t<=1.3", 7.98 },
{ "REFL|CL:R2R:5//53/t<=1.5", 7.77 },
{ "REFL|CL:R2R:5//53/t<=1.64", 7.87 },
{ "REFL|CL:R2R:5//53/t<=1.8", 7.46 },
{ "REFL|CL:R2R:5//53/t<=1e-06", 7.9 },
{ "REFL|CL:R2R:5//53/t<=2.1", 7.64 },
{ "REFL|CL:R2R:5//53/t<=2.6", 7.79 },
{ "REFL|CL:R2R:5//53/t<=2.95", 9 },
{ "REFL|CL:R2R:5//53/t<=3.1", 10.4 },
{ "REFL|CL:R2R:5//53/t<=3.141", 13.2 },
{ "REFL|CL:R2R:5//53/t>3.141", 11.1 },
{ "REFL|CL:R2R:5//53/u<=0.1", 12.9 },
{ "REFL|CL:R2R:5//53/u<=0.5", 8.65 },
{ "REFL|CL:R2R:5//53/u<=1", 6.77 },
{ "REFL|CL:R2R:5//53/u<=1.3", 6.63 },
{ "REFL|CL:R2R:5//53/u<=1.5", 12.6 },
{ "REFL|CL:R2R:5//53/u<=1.64", 6.63 },
{ "REFL|CL:R2R:5//53/u<=1.8", 12.6 },
{ "REFL|CL:R2R:5//53/u<=1e-06", 8.9 },
{ "REFL|CL:R2R:5//53/u<=2.1", 7.29 },
{ "REFL|CL:R2R:5//53/u<=2.6", 7.74 },
{ "REFL|CL:R2R:5//53/u<=2.95", 8.84 },
{ "REFL|CL:R2R:5//53/u<=3.1", 12.8 },
{ "REFL|CL:R2R:5//53/v<=0.1", 11.4 },
{ "REFL|CL:R2R:5//53/v<=0.5", 8.22 },
{ "REFL|CL:R2R:5//53/v<=1", 6.63 },
{ "REFL|CL:R2R:5//53/v<=1.3", 6.65 },
{ "REFL|CL:R2R:5//53/v<=1.5", 6.67 },
{ "REFL|CL:R2R:5//53/v<=1.64", 6.65 },
{ "REFL|CL:R2R:5//53/v<=1.8", 6.58 },
{ "REFL|CL:R2R:5//53/v<=1e-06", 8.9 },
{ "REFL|CL:R2R:5//53/v<=2.1", 6.74 },
{ "REFL|CL:R2R:5//53/v<=2.6", 6.84 },
{ "REFL|CL:R2R:5//53/v<=2.95", 7.66 },
{ "REFL|CL:R2R:5//53/v<=3.1", 12.6 },
{ "REFL|CL:R2R:5//53/v<=3.141", 12.9 },
{ "REFL|CL:R2R:5//53/v>3.141", 12.5 },
{ "REFL|CL:R2R:5//64/t<=0.1", 12.8 },
{ "REFL|CL:R2R:5//64/t<=0.5", 12.5 },
{ "REFL|CL:R2R:5//64/t<=1", 8.88 },
{ "REFL|CL:R2R:5//64/t<=1.3", 8.04 },
{ "REFL|CL:R2R:5//64/t<=1.5", 8.12 },
{ "REFL|CL:R2R:5//64/t<=1.64", 306 },
{ "REFL|CL:R2R:5//64/t<=1.8", 73.3 },
{ "REFL|CL:R2R:5//64/t<=1e-06", 7.5 },
{ "REFL|CL:R2R:5//64/t<=2.1", 9.49 },
{ "REFL|CL:R2R:5//64/t<=2.6", 8.04 },
{ "REFL|CL:R2R:5//64/t<=2.95", 9.32 },
{ "REFL|CL:R2R:5//64/t<=3.1", 13.1 },
{ "REFL|CL:R2R:5//64/t<=3.141", 15.3 },
{ "REFL|CL:R2R:5//64/t>3.141", 12.1 },
{ "REFL|CL:R2R:5//64/u<=0.1", 12.9 },
{ "REFL|CL:R2R:5//64/u<=0.5", 12.6 },
{ "REFL|CL:R2R:5//64/u<=1", 6.76 },
{ "REFL|CL:R2R:5//64/u<=1.3", 12.6 },
{ "REFL|CL:R2R:5//64/u<=1.5", 12.6 },
{ "REFL|CL:R2R:5//64/u<=1.64", 92.9 },
{ "REFL|CL:R2R:5//64/u<=1.8", 33.5 },
{ "REFL|CL:R2R:5//64/u<=1e-06", 8.42 },
{ "REFL|CL:R2R:5//64/u<=2.1", 12.6 },
{ "REFL|CL:R2R:5//64/u<=2.6", 7.86 },
{ "REFL|CL:R2R:5//64/u<=2.95", 12.8 },
{ "REFL|CL:R2R:5//64/u<=3.1", 12.8 },
{ "REFL|CL:R2R:5//64/v<=0.1", 12.8 },
{ "REFL|CL:R2R:5//64/v<=0.5", 8.46 },
{ "REFL|CL:R2R:5//64/v<=1", 6.78 },
{ "REFL|CL:R2R:5//64/v<=1.3", 6.61 },
{ "REFL|CL:R2R:5//64/v<=1.5", 12.6 },
{ "REFL|CL:R2R:5//64/v<=1.64", 57.8 },
{ "REFL|CL:R2R:5//64/v<=1.8", 15.7 },
{ "REFL|CL:R2R:5//64/v<=1e-06", 8.47 },
{ "REFL|CL:R2R:5//64/v<=2.1", 6.79 },
{ "REFL|CL:R2R:5//64/v<=2.6", 6.87 },
{ "REFL|CL:R2R:5//64/v<=2.95", 7.74 },
{ "REFL|CL:R2R:5//64/v<=3.1", 12.7 },
{ "REFL|CL:R2R:5//64/v<=3.141", 13 },
{ "REFL|CL:R2R:5//64/v>3.141", 13.6 },
{ "REFL|CL:R2R:6//53/t<=0.1", 8.53 },
{ "REFL|CL:R2R:6//53/t<=0.5", 8.18 },
{ "REFL|CL:R2R:6//53/t<=1", 7.77 },
{ "REFL|CL:R2R:6//53/t<=1.3", 9.02 },
{ "REFL|CL:R2R:6//53/t<=1.5", 10.8 },
{ "REFL|CL:R2R:6//53/t<=1.64", 11.8 },
{ "REFL|CL:R2R:6//53/t<=1.8", 9.42 },
{ "REFL|CL:R2R:6//53/t<=1e-06", 6.73 },
{ "REFL|CL:R2R:6//53/t<=2.1", 8.5 },
{ "REFL|CL:R2R:6//53/t<=2.6", 8.06 },
{ "REFL|CL:R2R:6//53/t<=2.95", 7.13 },
{ "REFL|CL:R2R:6//53/t<=3.1", 6.96 },
{ "REFL|CL:R2R:6//53/t<=3.141", 12.6 },
{ "REFL|CL:R2R:6//53/t>3.141", 6.92 },
{ "REFL|CL:R2R:6//53/u<=0.1", 12.6 },
{ "REFL|CL:R2R:6//53/u<=0.5", 6.63 },
{ "REFL|CL:R2R:6//53/u<=1", 6.93 },
{ "REFL|CL:R2R:6//53/u<=1.3", 7.67 },
{ "REFL|CL:R2R:6//53/u<=1.5", 13 },
{ "REFL|CL:R2R:6//53/u<=1.64", 11 },
{ "REFL|CL:R2R:6//53/u<=1.8", 12.7 },
{ "REFL|CL:R2R:6//53/u<=1e-06", 6.62 },
{ "REFL|CL:R2R:6//53/u<=2.1", 7.8 },
{ "REFL|CL:R2R:6//53/u<=2.6", 7.66 },
{ "REFL|CL:R2R:6//53/u<=2.95", 7.33 },
{ "REFL|CL:R2R:6//53/u<=3.1", 12.6 },
{ "REFL|CL:R2R:6//53/v<=0.1", 6.64 },
{ "REFL|CL:R2R:6//53/v<=0.5", 6.63 },
{ "REFL|CL:R2R:6//53/v<=1", 6.67 },
{ "REFL|CL:R2R:6//53/v<=1.3", 7.39 },
{ "REFL|CL:R2R:6//53/v<=1.5", 8.93 },
{ "REFL|CL:R2R:6//53/v<=1.64", 9.01 },
{ "REFL|CL:R2R:6//53/v<=1.8", 8.01 },
{ "REFL|CL:R2R:6//53/v<=1e-06", 6.65 },
{ "REFL|CL:R2R:6//53/v<=2.1", 7.04 },
{ "REFL|CL:R2R:6//53/v<=2.6", 6.94 },
{ "REFL|CL:R2R:6//53/v<=2.95", 6.66 },
{ "REFL|CL:R2R:6//53/v<=3.1", 6.62 },
{ "REFL|CL:R2R:6//53/v<=3.141", 12.6 },
{ "REFL|CL:R2R:6//53/v>3.141", 6.66 },
{ "REFL|CL:R2R:6//64/t<=0.1", 8.69 },
{ "REFL|CL:R2R:6//64/t<=0.5", 8.89 },
{ "REFL|CL:R2R:6//64/t<=1", 8.6 },
{ "REFL|CL:R2R:6//64/t<=1.3", 9.61 },
{ "REFL|CL:R2R:6//64/t<=1.5", 13.6 },
{ "REFL|CL:R2R:6//64/t<=1.64", 856 },
{ "REFL|CL:R2R:6//64/t<=1.8", 308 },
{ "REFL|CL:R2R:6//64/t<=1e-06", 6.64 },
{ "REFL|CL:R2R:6//64/t<=2.1", 23 },
{ "REFL|CL:R2R:6//64/t<=2.6", 8.87 },
{ "REFL|CL:R2R:6//64/t<=2.95", 7.45 },
{ "REFL|CL:R2R:6//64/t<=3.1", 12.6 },
{ "REFL|CL:R2R:6//64/t<=3.141", 12.6 },
{ "REFL|CL:R2R:6//64/t>3.141", 6.58 },
{ "REFL|CL:R2R:6//64/u<=0.1", 12.6 },
{ "REFL|CL:R2R:6//64/u<=0.5", 12.6 },
{ "REFL|CL:R2R:6//64/u<=1", 6.89 },
{ "REFL|CL:R2R:6//64/u<=1.3", 12.6 },
{ "REFL|CL:R2R:6//64/u<=1.5", 13 },
{ "REFL|CL:R2R:6//64/u<=1.64", 839 },
{ "REFL|CL:R2R:6//64/u<=1.8", 221 },
{ "REFL|CL:R2R:6//64/u<=1e-06", 12.6 },
{ "REFL|CL:R2R:6//64/u<=2.1", 17.6 },
{ "REFL|CL:R2R:6//64/u<=2.6", 7.61 },
{ "REFL|CL:R2R:6//64/u<=2.95", 12.6 },
{ "REFL|CL:R2R:6//64/u<=3.1", 12.6 },
{ "REFL|CL:R2R:6//64/v<=0.1", 12.6 },
{ "REFL|CL:R2R:6//64/v<=0.5", 6.62 },
{ "REFL|CL:R2R:6//64/v<=1", 6.76 },
{ "REFL|CL:R2R:6//64/v<=1.3", 7.69 },
{ "REFL|CL:R2R:6//64/v<=1.5", 13 },
{ "REFL|CL:R2R:6//64/v<=1.64", 739 },
{ "REFL|CL:R2R:6//64/v<=1.8", 129 },
{ "REFL|CL:R2R:6//64/v<=1e-06", 6.62 },
{ "REFL|CL:R2R:6//64/v<=2.1", 9.78 },
{ "REFL|CL:R2R:6//64/v<=2.6", 7.21 },
{ "REFL|CL:R2R:6//64/v<=2.95", 6.6 },
{ "REFL|CL:R2R:6//64/v<=3.1", 12.6 },
{ "REFL|CL:R2R:6//64/v<=3.141", 12.6 },
{ "REFL|CL:R2R:6//64/v>3.141", 6.62 },
{ "REFL|SL:NR2R:0/1/53/t<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=1", 12.7 },
{ "REFL|SL:NR2R:0/1/53/t<=1.3", 12.5 },
{ "REFL|SL:NR2R:0/1/53/t<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/1/53/t<=3.1", 12.5 },
{ "REFL|SL:NR2R:0/1/53/t<=3.141", 12.5 },
{ "REFL|SL:NR2R:0/1/53/t>3.141", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=0.5", 12.5 },
{ "REFL|SL:NR2R:0/1/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=1.64", 12.5 },
{ "REFL|SL:NR2R:0/1/53/u<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/1/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/1/53/u<=3.1", 12.5 },
{ "REFL|SL:NR2R:0/1/53/v<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/1/53/v<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=1.5", 12.5 },
{ "REFL|SL:NR2R:0/1/53/v<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=1.8", 12.4 },
{ "REFL|SL:NR2R:0/1/53/v<=1e-06", 12.5 },
{ "REFL|SL:NR2R:0/1/53/v<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=2.95", 12.5 },
{ "REFL|SL:NR2R:0/1/53/v<=3.1", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/1/53/v>3.141", 12.6 },
{ "REFL|SL:NR2R:0/2/53/t<=0.1", 12.7 },
{ "REFL|SL:NR2R:0/2/53/t<=0.5", 12.7 },
{ "REFL|SL:NR2R:0/2/53/t<=1", 12.6 },
{ "REFL|SL:NR2R:0/2/53/t<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/2/53/t<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/2/53/t<=1.64", 12.5 },
{ "REFL|SL:NR2R:0/2/53/t<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/2/53/t<=1e-06", 12.7 },
{ "REFL|SL:NR2R:0/2/53/t<=2.1", 13.2 },
{ "REFL|SL:NR2R:0/2/53/t<=2.6", 12.8 },
{ "REFL|SL:NR2R:0/2/53/t<=2.95", 13 },
{ "REFL|SL:NR2R:0/2/53/t<=3.1", 13.6 },
{ "REFL|SL:NR2R:0/2/53/t<=3.141", 13.9 },
{ "REFL|SL:NR2R:0/2/53/t>3.141", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/2/53/u<=0.5", 12.5 },
{ "REFL|SL:NR2R:0/2/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=1.5", 12.5 },
{ "REFL|SL:NR2R:0/2/53/u<=1.64", 12.5 },
{ "REFL|SL:NR2R:0/2/53/u<=1.8", 12.4 },
{ "REFL|SL:NR2R:0/2/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/2/53/u<=3.1", 12.9 },
{ "REFL|SL:NR2R:0/2/53/v<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/2/53/v<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=1", 12.5 },
{ "REFL|SL:NR2R:0/2/53/v<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=2.1", 12.7 },
{ "REFL|SL:NR2R:0/2/53/v<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v<=3.1", 13.5 },
{ "REFL|SL:NR2R:0/2/53/v<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/2/53/v>3.141", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/t<=0.1", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/t<=0.5", 6.67 },
{ "REFL|SL:NR2R:0/200+/53/t<=1", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/t<=1.3", 6.67 },
{ "REFL|SL:NR2R:0/200+/53/t<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/200+/53/t<=1.64", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/t<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/t<=1e-06", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/t<=2.1", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/t<=2.6", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/t<=2.95", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/t<=3.1", 12.7 },
{ "REFL|SL:NR2R:0/200+/53/t<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/t>3.141", 12.7 },
{ "REFL|SL:NR2R:0/200+/53/u<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=1", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/u<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=2.6", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/u<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/u<=3.1", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v<=0.5", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/v<=1", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/v<=1.3", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/v<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v<=1.64", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/v<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v<=1e-06", 6.64 },
{ "REFL|SL:NR2R:0/200+/53/v<=2.1", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/v<=2.6", 6.66 },
{ "REFL|SL:NR2R:0/200+/53/v<=2.95", 6.65 },
{ "REFL|SL:NR2R:0/200+/53/v<=3.1", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/200+/53/v>3.141", 6.65 },
{ "REFL|SL:NR2R:0/3/53/t<=0.1", 12.7 },
{ "REFL|SL:NR2R:0/3/53/t<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/3/53/t<=1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/t<=1.3", 12.7 },
{ "REFL|SL:NR2R:0/3/53/t<=1.5", 12.8 },
{ "REFL|SL:NR2R:0/3/53/t<=1.64", 13.1 },
{ "REFL|SL:NR2R:0/3/53/t<=1.8", 12.8 },
{ "REFL|SL:NR2R:0/3/53/t<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/3/53/t<=2.1", 13 },
{ "REFL|SL:NR2R:0/3/53/t<=2.6", 12.8 },
{ "REFL|SL:NR2R:0/3/53/t<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/3/53/t<=3.1", 12.9 },
{ "REFL|SL:NR2R:0/3/53/t<=3.141", 12.7 },
{ "REFL|SL:NR2R:0/3/53/t>3.141", 13 },
{ "REFL|SL:NR2R:0/3/53/u<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/3/53/u<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/3/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/u<=1.3", 12.5 },
{ "REFL|SL:NR2R:0/3/53/u<=1.5", 12.9 },
{ "REFL|SL:NR2R:0/3/53/u<=1.64", 12.7 },
{ "REFL|SL:NR2R:0/3/53/u<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/3/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/3/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/u<=2.6", 12.8 },
{ "REFL|SL:NR2R:0/3/53/u<=2.95", 12.9 },
{ "REFL|SL:NR2R:0/3/53/u<=3.1", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=0.5", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=1.64", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=1.8", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=1e-06", 12.5 },
{ "REFL|SL:NR2R:0/3/53/v<=2.1", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=2.95", 12.7 },
{ "REFL|SL:NR2R:0/3/53/v<=3.1", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/3/53/v>3.141", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/t<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/t<=0.5", 7.41 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1", 7.38 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1.3", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1.64", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/t<=1e-06", 7.36 },
{ "REFL|SL:NR2R:0/30-199/53/t<=2.1", 6.88 },
{ "REFL|SL:NR2R:0/30-199/53/t<=2.6", 6.65 },
{ "REFL|SL:NR2R:0/30-199/53/t<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/t<=3.1", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/t<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/t>3.141", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=0.5", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1.3", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=2.1", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/u<=2.6", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/u<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/u<=3.1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=0.5", 6.87 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1", 6.66 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1.64", 7.36 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=1e-06", 8.36 },
{ "REFL|SL:NR2R:0/30-199/53/v<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=2.6", 6.65 },
{ "REFL|SL:NR2R:0/30-199/53/v<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v<=3.1", 12.7 },
{ "REFL|SL:NR2R:0/30-199/53/v<=3.141", 12.6 },
{ "REFL|SL:NR2R:0/30-199/53/v>3.141", 7.2 },
{ "REFL|SL:NR2R:0/4/53/t<=0.1", 12.8 },
{ "REFL|SL:NR2R:0/4/53/t<=0.5", 12.7 },
{ "REFL|SL:NR2R:0/4/53/t<=1", 12.6 },
{ "REFL|SL:NR2R:0/4/53/t<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/4/53/t<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/4/53/t<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/4/53/t<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/4/53/t<=1e-06", 7.32 },
{ "REFL|SL:NR2R:0/4/53/t<=2.1", 12.7 },
{ "REFL|SL:NR2R:0/4/53/t<=2.6", 17.8 },
{ "REFL|SL:NR2R:0/4/53/t<=2.95", 39.5 },
{ "REFL|SL:NR2R:0/4/53/t<=3.1", 57.7 },
{ "REFL|SL:NR2R:0/4/53/t<=3.141", 66.8 },
{ "REFL|SL:NR2R:0/4/53/t>3.141", 65.1 },
{ "REFL|SL:NR2R:0/4/53/u<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/4/53/u<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/4/53/u<=1", 12.7 },
{ "REFL|SL:NR2R:0/4/53/u<=1.3", 12.5 },
{ "REFL|SL:NR2R:0/4/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/4/53/u<=1.64", 12.5 },
{ "REFL|SL:NR2R:0/4/53/u<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/4/53/u<=1e-06", 7.32 },
{ "REFL|SL:NR2R:0/4/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/4/53/u<=2.6", 13.6 },
{ "REFL|SL:NR2R:0/4/53/u<=2.95", 36.2 },
{ "REFL|SL:NR2R:0/4/53/u<=3.1", 53 },
{ "REFL|SL:NR2R:0/4/53/v<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=1", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=1.3", 12.7 },
{ "REFL|SL:NR2R:0/4/53/v<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=1.64", 12.7 },
{ "REFL|SL:NR2R:0/4/53/v<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=1e-06", 7.32 },
{ "REFL|SL:NR2R:0/4/53/v<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/4/53/v<=2.95", 21.9 },
{ "REFL|SL:NR2R:0/4/53/v<=3.1", 41.3 },
{ "REFL|SL:NR2R:0/4/53/v<=3.141", 63.2 },
{ "REFL|SL:NR2R:0/4/53/v>3.141", 67.5 },
{ "REFL|SL:NR2R:0/5/53/t<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/t<=0.5", 12.7 },
{ "REFL|SL:NR2R:0/5/53/t<=1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/t<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/5/53/t<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/5/53/t<=1.64", 13 },
{ "REFL|SL:NR2R:0/5/53/t<=1.8", 12.8 },
{ "REFL|SL:NR2R:0/5/53/t<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/5/53/t<=2.1", 12.7 },
{ "REFL|SL:NR2R:0/5/53/t<=2.6", 12.7 },
{ "REFL|SL:NR2R:0/5/53/t<=2.95", 15.5 },
{ "REFL|SL:NR2R:0/5/53/t<=3.1", 16.5 },
{ "REFL|SL:NR2R:0/5/53/t<=3.141", 17.4 },
{ "REFL|SL:NR2R:0/5/53/t>3.141", 16.9 },
{ "REFL|SL:NR2R:0/5/53/u<=0.1", 12.5 },
{ "REFL|SL:NR2R:0/5/53/u<=0.5", 12.5 },
{ "REFL|SL:NR2R:0/5/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/5/53/u<=1.64", 13 },
{ "REFL|SL:NR2R:0/5/53/u<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/5/53/u<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/5/53/u<=3.1", 12.8 },
{ "REFL|SL:NR2R:0/5/53/v<=0.1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/v<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/5/53/v<=1", 12.7 },
{ "REFL|SL:NR2R:0/5/53/v<=1.3", 12.5 },
{ "REFL|SL:NR2R:0/5/53/v<=1.5", 12.4 },
{ "REFL|SL:NR2R:0/5/53/v<=1.64", 12.9 },
{ "REFL|SL:NR2R:0/5/53/v<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/5/53/v<=1e-06", 12.6 },
{ "REFL|SL:NR2R:0/5/53/v<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/5/53/v<=2.6", 12.7 },
{ "REFL|SL:NR2R:0/5/53/v<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/5/53/v<=3.1", 12.5 },
{ "REFL|SL:NR2R:0/5/53/v<=3.141", 12.5 },
{ "REFL|SL:NR2R:0/5/53/v>3.141", 12.9 },
{ "REFL|SL:NR2R:0/6/53/t<=0.1", 12.7 },
{ "REFL|SL:NR2R:0/6/53/t<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=1", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=1.5", 12.7 },
{ "REFL|SL:NR2R:0/6/53/t<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=1.8", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=1e-06", 7.85 },
{ "REFL|SL:NR2R:0/6/53/t<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/6/53/t<=2.6", 12.8 },
{ "REFL|SL:NR2R:0/6/53/t<=2.95", 14 },
{ "REFL|SL:NR2R:0/6/53/t<=3.1", 24.1 },
{ "REFL|SL:NR2R:0/6/53/t<=3.141", 28.8 },
{ "REFL|SL:NR2R:0/6/53/t>3.141", 33 },
{ "REFL|SL:NR2R:0/6/53/u<=0.1", 12.8 },
{ "REFL|SL:NR2R:0/6/53/u<=0.5", 12.5 },
{ "REFL|SL:NR2R:0/6/53/u<=1", 12.6 },
{ "REFL|SL:NR2R:0/6/53/u<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/6/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/6/53/u<=1.64", 12.6 },
{ "REFL|SL:NR2R:0/6/53/u<=1.8", 12.4 },
{ "REFL|SL:NR2R:0/6/53/u<=1e-06", 7.85 },
{ "REFL|SL:NR2R:0/6/53/u<=2.1", 12.5 },
{ "REFL|SL:NR2R:0/6/53/u<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/6/53/u<=2.95", 12.7 },
{ "REFL|SL:NR2R:0/6/53/u<=3.1", 19.5 },
{ "REFL|SL:NR2R:0/6/53/v<=0.1", 12.7 },
{ "REFL|SL:NR2R:0/6/53/v<=0.5", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=1", 12.5 },
{ "REFL|SL:NR2R:0/6/53/v<=1.3", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=1.64", 12.7 },
{ "REFL|SL:NR2R:0/6/53/v<=1.8", 12.5 },
{ "REFL|SL:NR2R:0/6/53/v<=1e-06", 7.85 },
{ "REFL|SL:NR2R:0/6/53/v<=2.1", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=2.6", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=2.95", 12.6 },
{ "REFL|SL:NR2R:0/6/53/v<=3.1", 17.4 },
{ "REFL|SL:NR2R:0/6/53/v<=3.141", 27.5 },
{ "REFL|SL:NR2R:0/6/53/v>3.141", 33 },
{ "REFL|SL:NR2R:0/7-29/53/t<=0.1", 6.95 },
{ "REFL|SL:NR2R:0/7-29/53/t<=0.5", 6.66 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1.3", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1.5", 6.98 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1.64", 7.5 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1.8", 6.87 },
{ "REFL|SL:NR2R:0/7-29/53/t<=1e-06", 6.73 },
{ "REFL|SL:NR2R:0/7-29/53/t<=2.1", 6.8 },
{ "REFL|SL:NR2R:0/7-29/53/t<=2.6", 6.84 },
{ "REFL|SL:NR2R:0/7-29/53/t<=2.95", 7.06 },
{ "REFL|SL:NR2R:0/7-29/53/t<=3.1", 7.91 },
{ "REFL|SL:NR2R:0/7-29/53/t<=3.141", 16 },
{ "REFL|SL:NR2R:0/7-29/53/t>3.141", 12 },
{ "REFL|SL:NR2R:0/7-29/53/u<=0.1", 12.9 },
{ "REFL|SL:NR2R:0/7-29/53/u<=0.5", 6.64 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1", 6.66 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1.3", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1.5", 12.6 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1.64", 7.5 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1.8", 12.9 },
{ "REFL|SL:NR2R:0/7-29/53/u<=1e-06", 6.63 },
{ "REFL|SL:NR2R:0/7-29/53/u<=2.1", 6.64 },
{ "REFL|SL:NR2R:0/7-29/53/u<=2.6", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/u<=2.95", 13.2 },
{ "REFL|SL:NR2R:0/7-29/53/u<=3.1", 15 },
{ "REFL|SL:NR2R:0/7-29/53/v<=0.1", 6.82 },
{ "REFL|SL:NR2R:0/7-29/53/v<=0.5", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1.3", 6.66 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1.5", 6.65 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1.64", 7.5 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1.8", 12.7 },
{ "REFL|SL:NR2R:0/7-29/53/v<=1e-06", 6.93 },
{ "REFL|SL:NR2R:0/7-29/53/v<=2.1", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/v<=2.6", 6.67 },
{ "REFL|SL:NR2R:0/7-29/53/v<=2.95", 6.71 },
{ "REFL|SL:NR2R:0/7-29/53/v<=3.1", 13.7 },
{ "REFL|SL:NR2R:0/7-29/53/v<=3.141", 14.3 },
{ "REFL|SL:NR2R:0/7-29/53/v>3.141", 12 },
{ "SL:NR2R:0/-29/53/t<=0.1", 7.96 },
{ "SL:NR2R:0/-29/53/t<=0.5", 7.79 },
{ "SL:NR2R:0/-29/53/t<=1", 7.79 },
{ "SL:NR2R:0/-29/53/t<=1.3", 8.07 },
{ "SL:NR2R:0/-29/53/t<=1.5", 8.98 },
{ "SL:NR2R:0/-29/53/t<=1.64", 9.69 },
{ "SL:NR2R:0/-29/53/t<=1.8", 9.59 },
{ "SL:NR2R:0/-29/53/t<=1e-06", 6.96 },
{ "SL:NR2R:0/-29/53/t<=2.1", 9.04 },
{ "SL:NR2R:0/-29/53/t<=2.6", 9.86 },
{ "SL:NR2R:0/-29/53/t<=2.95", 16 },
{ "SL:NR2R:0/-29/53/t<=3.1", 22.3 },
{ "SL:NR2R:0/-29/53/t<=3.141", 31.3 },
{ "SL:NR2R:0/-29/53/t>3.141", 29.6 },
{ "SL:NR2R:0/-29/53/u<=0.1", 7.96 },
{ "SL:NR2R:0/-29/53/u<=0.5", 6.94 },
{ "SL:NR2R:0/-29/53/u<=1", 6.51 },
{ "SL:NR2R:0/-29/53/u<=1.3", 7.21 },
{ "SL:NR2R:0/-29/53/u<=1.5", 8.54 },
{ "SL:NR2R:0/-29/53/u<=1.64", 9.59 },
{ "SL:NR2R:0/-29/53/u<=1.8", 8.54 },
{ "SL:NR2R:0/-29/53/u<=1e-06", 7.95 },
{ "SL:NR2R:0/-29/53/u<=2.1", 8.01 },
{ "SL:NR2R:0/-29/53/u<=2.6", 9.36 },
{ "SL:NR2R:0/-29/53/u<=2.95", 15.4 },
{ "SL:NR2R:0/-29/53/u<=3.1", 25.4 },
{ "SL:NR2R:0/-29/53/v<=0.1", 7.96 },
{ "SL:NR2R:0/-29/53/v<=0.5", 6.91 },
{ "SL:NR2R:0/-29/53/v<=1", 6.67 },
{ "SL:NR2R:0/-29/53/v<=1.3", 7.06 },
{ "SL:NR2R:0/-29/53/v<=1.5", 7.83 },
{ "SL:NR2R:0/-29/53/v<=1.64", 9.85 },
{ "SL:NR2R:0/-29/53/v<=1.8", 8.12 },
{ "SL:NR2R:0/-29/53/v<=1e-06", 7.96 },
{ "SL:NR2R:0/-29/53/v<=2.1", 7.31 },
{ "SL:NR2R:0/-29/53/v<=2.6", 7.65 },
{ "SL:NR2R:0/-29/53/v<=2.95", 9.34 },
{ "SL:NR2R:0/-29/53/v<=3.1", 16.5 },
{ "SL:NR2R:0/-29/53/v<=3.141", 29.3 },
{ "SL:NR2R:0/-29/53/v>3.141", 29.8 },
{ "SL:NR2R:0/1/53/t<=0.1", 6.99 },
{ "SL:NR2R:0/1/53/t<=0.5", 6.99 },
{ "SL:NR2R:0/1/53/t<=1", 6.99 },
{ "SL:NR2R:0/1/53/t<=1.3", 6.99 },
{ "SL:NR2R:0/1/53/t<=1.5", 6.35 },
{ "SL:NR2R:0/1/53/t<=1.64", 6.35 },
{ "SL:NR2R:0/1/53/t<=1.8", 6.35 },
{ "SL:NR2R:0/1/53/t<=1e-06", 6.99 },
{ "SL:NR2R:0/1/53/t<=2.1", 6.35 },
{ "SL:NR2R:0/1/53/t<=2.6", 6.35 },
{ "SL:NR2R:0/1/53/t<=2.95", 6.35 },
{ "SL:NR2R:0/1/53/t<=3.1", 6.9 },
{ "SL:NR2R:0/1/53/t<=3.141", 6.92 },
{ "SL:NR2R:0/1/53/t>3.141", 6.92 },
{ "SL:NR2R:0/1/53/u<=0.1", 6.35 },
{ "SL:NR2R:0/1/53/u<=0.5", 6.32 },
{ "SL:NR2R:0/1/53/u<=1", 6.15 },
{ "SL:NR2R:0/1/53/u<=1.3", 6.15 },
{ "SL:NR2R:0/1/53/u<=1.5", 6.14 },
{ "SL:NR2R:0/1/53/u<=1.64", 6.15 },
{ "SL:NR2R:0/1/53/u<=1.8", 6.15 },
{ "SL:NR2R:0/1/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/1/53/u<=2.1", 6.55 },
{ "SL:NR2R:0/1/53/u<=2.6", 6.69 },
{ "SL:NR2R:0/1/53/u<=2.95", 6.82 },
{ "SL:NR2R:0/1/53/u<=3.1", 6.89 },
{ "SL:NR2R:0/1/53/v<=0.1", 6.35 },
{ "SL:NR2R:0/1/53/v<=0.5", 6.35 },
{ "SL:NR2R:0/1/53/v<=1", 6.35 },
{ "SL:NR2R:0/1/53/v<=1.3", 6.35 },
{ "SL:NR2R:0/1/53/v<=1.5", 6.35 },
{ "SL:NR2R:0/1/53/v<=1.64", 6.35 },
{ "SL:NR2R:0/1/53/v<=1.8", 6.35 },
{ "SL:NR2R:0/1/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/1/53/v<=2.1", 6.35 },
{ "SL:NR2R:0/1/53/v<=2.6", 6.35 },
{ "SL:NR2R:0/1/53/v<=2.95", 6.35 },
{ "SL:NR2R:0/1/53/v<=3.1", 6.35 },
{ "SL:NR2R:0/1/53/v<=3.141", 6.35 },
{ "SL:NR2R:0/1/53/v>3.141", 6.35 },
{ "SL:NR2R:0/10/53/t<=0.1", 7.98 },
{ "SL:NR2R:0/10/53/t<=0.5", 7.53 },
{ "SL:NR2R:0/10/53/t<=1", 7.7 },
{ "SL:NR2R:0/10/53/t<=1.3", 7.72 },
{ "SL:NR2R:0/10/53/t<=1.5", 7.91 },
{ "SL:NR2R:0/10/53/t<=1.64", 8.31 },
{ "SL:NR2R:0/10/53/t<=1.8", 8.13 },
{ "SL:NR2R:0/10/53/t<=1e-06", 7.98 },
{ "SL:NR2R:0/10/53/t<=2.1", 8.23 },
{ "SL:NR2R:0/10/53/t<=2.6", 9.07 },
{ "SL:NR2R:0/10/53/t<=2.95", 16.2 },
{ "SL:NR2R:0/10/53/t<=3.1", 21.9 },
{ "SL:NR2R:0/10/53/t<=3.141", 28.6 },
{ "SL:NR2R:0/10/53/t>3.141", 28.6 },
{ "SL:NR2R:0/10/53/u<=0.1", 7.98 },
{ "SL:NR2R:0/10/53/u<=0.5", 6.92 },
{ "SL:NR2R:0/10/53/u<=1", 6.44 },
{ "SL:NR2R:0/10/53/u<=1.3", 6.46 },
{ "SL:NR2R:0/10/53/u<=1.5", 6.56 },
{ "SL:NR2R:0/10/53/u<=1.64", 6.75 },
{ "SL:NR2R:0/10/53/u<=1.8", 6.83 },
{ "SL:NR2R:0/10/53/u<=1e-06", 7.98 },
{ "SL:NR2R:0/10/53/u<=2.1", 7.62 },
{ "SL:NR2R:0/10/53/u<=2.6", 8.92 },
{ "SL:NR2R:0/10/53/u<=2.95", 15.7 },
{ "SL:NR2R:0/10/53/u<=3.1", 20.4 },
{ "SL:NR2R:0/10/53/v<=0.1", 7.98 },
{ "SL:NR2R:0/10/53/v<=0.5", 7.03 },
{ "SL:NR2R:0/10/53/v<=1", 6.67 },
{ "SL:NR2R:0/10/53/v<=1.3", 6.64 },
{ "SL:NR2R:0/10/53/v<=1.5", 6.65 },
{ "SL:NR2R:0/10/53/v<=1.64", 6.73 },
{ "SL:NR2R:0/10/53/v<=1.8", 6.75 },
{ "SL:NR2R:0/10/53/v<=1e-06", 7.98 },
{ "SL:NR2R:0/10/53/v<=2.1", 6.94 },
{ "SL:NR2R:0/10/53/v<=2.6", 7.39 },
{ "SL:NR2R:0/10/53/v<=2.95", 8.61 },
{ "SL:NR2R:0/10/53/v<=3.1", 16.3 },
{ "SL:NR2R:0/10/53/v<=3.141", 27.1 },
{ "SL:NR2R:0/10/53/v>3.141", 24 },
{ "SL:NR2R:0/11/53/t<=0.1", 7.46 },
{ "SL:NR2R:0/11/53/t<=0.5", 7.19 },
{ "SL:NR2R:0/11/53/t<=1", 7.64 },
{ "SL:NR2R:0/11/53/t<=1.3", 8.4 },
{ "SL:NR2R:0/11/53/t<=1.5", 10.8 },
{ "SL:NR2R:0/11/53/t<=1.64", 12.9 },
{ "SL:NR2R:0/11/53/t<=1.8", 12.3 },
{ "SL:NR2R:0/11/53/t<=1e-06", 7.39 },
{ "SL:NR2R:0/11/53/t<=2.1", 11.1 },
{ "SL:NR2R:0/11/53/t<=2.6", 10.2 },
{ "SL:NR2R:0/11/53/t<=2.95", 10.1 },
{ "SL:NR2R:0/11/53/t<=3.1", 11.2 },
{ "SL:NR2R:0/11/53/t<=3.141", 13.3 },
{ "SL:NR2R:0/11/53/t>3.141", 14.5 },
{ "SL:NR2R:0/11/53/u<=0.1", 6.35 },
{ "SL:NR2R:0/11/53/u<=0.5", 6.21 },
{ "SL:NR2R:0/11/53/u<=1", 6.62 },
{ "SL:NR2R:0/11/53/u<=1.3", 7.35 },
{ "SL:NR2R:0/11/53/u<=1.5", 8.84 },
{ "SL:NR2R:0/11/53/u<=1.64", 13 },
{ "SL:NR2R:0/11/53/u<=1.8", 9.4 },
{ "SL:NR2R:0/11/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/11/53/u<=2.1", 8.42 },
{ "SL:NR2R:0/11/53/u<=2.6", 8.62 },
{ "SL:NR2R:0/11/53/u<=2.95", 10.8 },
{ "SL:NR2R:0/11/53/u<=3.1", 11.5 },
{ "SL:NR2R:0/11/53/v<=0.1", 6.36 },
{ "SL:NR2R:0/11/53/v<=0.5", 6.36 },
{ "SL:NR2R:0/11/53/v<=1", 6.48 },
{ "SL:NR2R:0/11/53/v<=1.3", 6.91 },
{ "SL:NR2R:0/11/53/v<=1.5", 8.26 },
{ "SL:NR2R:0/11/53/v<=1.64", 12.8 },
{ "SL:NR2R:0/11/53/v<=1.8", 8.54 },
{ "SL:NR2R:0/11/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/11/53/v<=2.1", 7.78 },
{ "SL:NR2R:0/11/53/v<=2.6", 7.43 },
{ "SL:NR2R:0/11/53/v<=2.95", 7.34 },
{ "SL:NR2R:0/11/53/v<=3.1", 7.39 },
{ "SL:NR2R:0/11/53/v<=3.141", 7.34 },
{ "SL:NR2R:0/11/53/v>3.141", 7.66 },
{ "SL:NR2R:0/12/53/t<=0.1", 7.03 },
{ "SL:NR2R:0/12/53/t<=0.5", 6.66 },
{ "SL:NR2R:0/12/53/t<=1", 7.19 },
{ "SL:NR2R:0/12/53/t<=1.3", 7.45 },
{ "SL:NR2R:0/12/53/t<=1.5", 7.9 },
{ "SL:NR2R:0/12/53/t<=1.64", 8.36 },
{ "SL:NR2R:0/12/53/t<=1.8", 8.28 },
{ "SL:NR2R:0/12/53/t<=1e-06", 7.03 },
{ "SL:NR2R:0/12/53/t<=2.1", 8.8 },
{ "SL:NR2R:0/12/53/t<=2.6", 12.9 },
{ "SL:NR2R:0/12/53/t<=2.95", 24.2 },
{ "SL:NR2R:0/12/53/t<=3.1", 35.4 },
{ "SL:NR2R:0/12/53/t<=3.141", 43.2 },
{ "SL:NR2R:0/12/53/t>3.141", 46 },
{ "SL:NR2R:0/12/53/u<=0.1", 7.03 },
{ "SL:NR2R:0/12/53/u<=0.5", 6.33 },
{ "SL:NR2R:0/12/53/u<=1", 6.35 },
{ "SL:NR2R:0/12/53/u<=1.3", 6.45 },
{ "SL:NR2R:0/12/53/u<=1.5", 6.67 },
{ "SL:NR2R:0/12/53/u<=1.64", 6.85 },
{ "SL:NR2R:0/12/53/u<=1.8", 7.02 },
{ "SL:NR2R:0/12/53/u<=1e-06", 7.03 },
{ "SL:NR2R:0/12/53/u<=2.1", 7.31 },
{ "SL:NR2R:0/12/53/u<=2.6", 9.7 },
{ "SL:NR2R:0/12/53/u<=2.95", 21.9 },
{ "SL:NR2R:0/12/53/u<=3.1", 31.2 },
{ "SL:NR2R:0/12/53/v<=0.1", 7.03 },
{ "SL:NR2R:0/12/53/v<=0.5", 6.45 },
{ "SL:NR2R:0/12/53/v<=1", 6.41 },
{ "SL:NR2R:0/12/53/v<=1.3", 6.39 },
{ "SL:NR2R:0/12/53/v<=1.5", 6.46 },
{ "SL:NR2R:0/12/53/v<=1.64", 6.55 },
{ "SL:NR2R:0/12/53/v<=1.8", 6.63 },
{ "SL:NR2R:0/12/53/v<=1e-06", 7.03 },
{ "SL:NR2R:0/12/53/v<=2.1", 6.69 },
{ "SL:NR2R:0/12/53/v<=2.6", 7.53 },
{ "SL:NR2R:0/12/53/v<=2.95", 12.9 },
{ "SL:NR2R:0/12/53/v<=3.1", 26 },
{ "SL:NR2R:0/12/53/v<=3.141", 41.2 },
{ "SL:NR2R:0/12/53/v>3.141", 45.8 },
{ "SL:NR2R:0/2/53/t<=0.1", 6.86 },
{ "SL:NR2R:0/2/53/t<=0.5", 7.2 },
{ "SL:NR2R:0/2/53/t<=1", 7.62 },
{ "SL:NR2R:0/2/53/t<=1.3", 8.22 },
{ "SL:NR2R:0/2/53/t<=1.5", 8.29 },
{ "SL:NR2R:0/2/53/t<=1.64", 8.21 },
{ "SL:NR2R:0/2/53/t<=1.8", 8.85 },
{ "SL:NR2R:0/2/53/t<=1e-06", 6.77 },
{ "SL:NR2R:0/2/53/t<=2.1", 9.04 },
{ "SL:NR2R:0/2/53/t<=2.6", 9.71 },
{ "SL:NR2R:0/2/53/t<=2.95", 9.15 },
{ "SL:NR2R:0/2/53/t<=3.1", 11.6 },
{ "SL:NR2R:0/2/53/t<=3.141", 12.6 },
{ "SL:NR2R:0/2/53/t>3.141", 12.6 },
{ "SL:NR2R:0/2/53/u<=0.1", 6.41 },
{ "SL:NR2R:0/2/53/u<=0.5", 6.17 },
{ "SL:NR2R:0/2/53/u<=1", 6.17 },
{ "SL:NR2R:0/2/53/u<=1.3", 6.22 },
{ "SL:NR2R:0/2/53/u<=1.5", 6.25 },
{ "SL:NR2R:0/2/53/u<=1.64", 6.28 },
{ "SL:NR2R:0/2/53/u<=1.8", 6.6 },
{ "SL:NR2R:0/2/53/u<=1e-06", 6.41 },
{ "SL:NR2R:0/2/53/u<=2.1", 7.51 },
{ "SL:NR2R:0/2/53/u<=2.6", 7.9 },
{ "SL:NR2R:0/2/53/u<=2.95", 8.77 },
{ "SL:NR2R:0/2/53/u<=3.1", 10.9 },
{ "SL:NR2R:0/2/53/v<=0.1", 6.42 },
{ "SL:NR2R:0/2/53/v<=0.5", 6.45 },
{ "SL:NR2R:0/2/53/v<=1", 6.39 },
{ "SL:NR2R:0/2/53/v<=1.3", 6.38 },
{ "SL:NR2R:0/2/53/v<=1.5", 6.37 },
{ "SL:NR2R:0/2/53/v<=1.64", 6.35 },
{ "SL:NR2R:0/2/53/v<=1.8", 6.48 },
{ "SL:NR2R:0/2/53/v<=1e-06", 6.38 },
{ "SL:NR2R:0/2/53/v<=2.1", 6.49 },
{ "SL:NR2R:0/2/53/v<=2.6", 6.94 },
{ "SL:NR2R:0/2/53/v<=2.95", 7.88 },
{ "SL:NR2R:0/2/53/v<=3.1", 9.52 },
{ "SL:NR2R:0/2/53/v<=3.141", 12.4 },
{ "SL:NR2R:0/2/53/v>3.141", 12.6 },
{ "SL:NR2R:0/200+/53/t<=0.1", 6.5 },
{ "SL:NR2R:0/200+/53/t<=0.5", 5.51 },
{ "SL:NR2R:0/200+/53/t<=1", 6.53 },
{ "SL:NR2R:0/200+/53/t<=1.3", 6.38 },
{ "SL:NR2R:0/200+/53/t<=1.5", 6.45 },
{ "SL:NR2R:0/200+/53/t<=1.64", 6.5 },
{ "SL:NR2R:0/200+/53/t<=1.8", 6.45 },
{ "SL:NR2R:0/200+/53/t<=1e-06", 5.5 },
{ "SL:NR2R:0/200+/53/t<=2.1", 6.36 },
{ "SL:NR2R:0/200+/53/t<=2.6", 6.26 },
{ "SL:NR2R:0/200+/53/t<=2.95", 6.32 },
{ "SL:NR2R:0/200+/53/t<=3.1", 6.57 },
{ "SL:NR2R:0/200+/53/t<=3.141", 6.57 },
{ "SL:NR2R:0/200+/53/t>3.141", 6.57 },
{ "SL:NR2R:0/200+/53/u<=0.1", 6.5 },
{ "SL:NR2R:0/200+/53/u<=0.5", 6.31 },
{ "SL:NR2R:0/200+/53/u<=1", 6.16 },
{ "SL:NR2R:0/200+/53/u<=1.3", 6.24 },
{ "SL:NR2R:0/200+/53/u<=1.5", 6.38 },
{ "SL:NR2R:0/200+/53/u<=1.64", 6.5 },
{ "SL:NR2R:0/200+/53/u<=1.8", 6.39 },
{ "SL:NR2R:0/200+/53/u<=1e-06", 6.5 },
{ "SL:NR2R:0/200+/53/u<=2.1", 6.5 },
{ "SL:NR2R:0/200+/53/u<=2.6", 6.55 },
{ "SL:NR2R:0/200+/53/u<=2.95", 6.56 },
{ "SL:NR2R:0/200+/53/u<=3.1", 6.57 },
{ "SL:NR2R:0/200+/53/v<=0.1", 6.5 },
{ "SL:NR2R:0/200+/53/v<=0.5", 6.44 },
{ "SL:NR2R:0/200+/53/v<=1", 6.38 },
{ "SL:NR2R:0/200+/53/v<=1.3", 6.36 },
{ "SL:NR2R:0/200+/53/v<=1.5", 6.42 },
{ "SL:NR2R:0/200+/53/v<=1.64", 6.5 },
{ "SL:NR2R:0/200+/53/v<=1.8", 6.42 },
{ "SL:NR2R:0/200+/53/v<=1e-06", 6.5 },
{ "SL:NR2R:0/200+/53/v<=2.1", 6.35 },
{ "SL:NR2R:0/200+/53/v<=2.6", 6.35 },
{ "SL:NR2R:0/200+/53/v<=2.95", 6.36 },
{ "SL:NR2R:0/200+/53/v<=3.1", 6.42 },
{ "SL:NR2R:0/200+/53/v<=3.141", 6.5 },
{ "SL:NR2R:0/200+/53/v>3.141", 6.5 },
{ "SL:NR2R:0/3/53/t<=0.1", 6.85 },
{ "SL:NR2R:0/3/53/t<=0.5", 7.11 },
{ "SL:NR2R:0/3/53/t<=1", 7.65 },
{ "SL:NR2R:0/3/53/t<=1.3", 7.97 },
{ "SL:NR2R:0/3/53/t<=1.5", 8.12 },
{ "SL:NR2R:0/3/53/t<=1.64", 8.72 },
{ "SL:NR2R:0/3/53/t<=1.8", 8.7 },
{ "SL:NR2R:0/3/53/t<=1e-06", 6.87 },
{ "SL:NR2R:0/3/53/t<=2.1", 8.73 },
{ "SL:NR2R:0/3/53/t<=2.6", 8.6 },
{ "SL:NR2R:0/3/53/t<=2.95", 8.93 },
{ "SL:NR2R:0/3/53/t<=3.1", 10.2 },
{ "SL:NR2R:0/3/53/t<=3.141", 10.8 },
{ "SL:NR2R:0/3/53/t>3.141", 10.8 },
{ "SL:NR2R:0/3/53/u<=0.1", 6.35 },
{ "SL:NR2R:0/3/53/u<=0.5", 6.24 },
{ "SL:NR2R:0/3/53/u<=1", 6.62 },
{ "SL:NR2R:0/3/53/u<=1.3", 7.67 },
{ "SL:NR2R:0/3/53/u<=1.5", 8.07 },
{ "SL:NR2R:0/3/53/u<=1.64", 7.89 },
{ "SL:NR2R:0/3/53/u<=1.8", 7.75 },
{ "SL:NR2R:0/3/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/3/53/u<=2.1", 7.7 },
{ "SL:NR2R:0/3/53/u<=2.6", 8.29 },
{ "SL:NR2R:0/3/53/u<=2.95", 8.97 },
{ "SL:NR2R:0/3/53/u<=3.1", 10.1 },
{ "SL:NR2R:0/3/53/v<=0.1", 6.45 },
{ "SL:NR2R:0/3/53/v<=0.5", 6.44 },
{ "SL:NR2R:0/3/53/v<=1", 6.69 },
{ "SL:NR2R:0/3/53/v<=1.3", 7.3 },
{ "SL:NR2R:0/3/53/v<=1.5", 7.88 },
{ "SL:NR2R:0/3/53/v<=1.64", 7.54 },
{ "SL:NR2R:0/3/53/v<=1.8", 7.32 },
{ "SL:NR2R:0/3/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/3/53/v<=2.1", 7.15 },
{ "SL:NR2R:0/3/53/v<=2.6", 7.12 },
{ "SL:NR2R:0/3/53/v<=2.95", 7.16 },
{ "SL:NR2R:0/3/53/v<=3.1", 7.22 },
{ "SL:NR2R:0/3/53/v<=3.141", 7.23 },
{ "SL:NR2R:0/3/53/v>3.141", 7.25 },
{ "SL:NR2R:0/30-199/53/t<=0.1", 8.36 },
{ "SL:NR2R:0/30-199/53/t<=0.5", 7.41 },
{ "SL:NR2R:0/30-199/53/t<=1", 7.38 },
{ "SL:NR2R:0/30-199/53/t<=1.3", 7.05 },
{ "SL:NR2R:0/30-199/53/t<=1.5", 7.22 },
{ "SL:NR2R:0/30-199/53/t<=1.64", 7.33 },
{ "SL:NR2R:0/30-199/53/t<=1.8", 7.2 },
{ "SL:NR2R:0/30-199/53/t<=1e-06", 7.36 },
{ "SL:NR2R:0/30-199/53/t<=2.1", 6.88 },
{ "SL:NR2R:0/30-199/53/t<=2.6", 6.65 },
{ "SL:NR2R:0/30-199/53/t<=2.95", 6.89 },
{ "SL:NR2R:0/30-199/53/t<=3.1", 7.17 },
{ "SL:NR2R:0/30-199/53/t<=3.141", 7.42 },
{ "SL:NR2R:0/30-199/53/t>3.141", 7.2 },
{ "SL:NR2R:0/30-199/53/u<=0.1", 8.34 },
{ "SL:NR2R:0/30-199/53/u<=0.5", 6.83 },
{ "SL:NR2R:0/30-199/53/u<=1", 6.39 },
{ "SL:NR2R:0/30-199/53/u<=1.3", 6.59 },
{ "SL:NR2R:0/30-199/53/u<=1.5", 6.99 },
{ "SL:NR2R:0/30-199/53/u<=1.64", 7.4 },
{ "SL:NR2R:0/30-199/53/u<=1.8", 6.95 },
{ "SL:NR2R:0/30-199/53/u<=1e-06", 8.36 },
{ "SL:NR2R:0/30-199/53/u<=2.1", 6.69 },
{ "SL:NR2R:0/30-199/53/u<=2.6", 6.84 },
{ "SL:NR2R:0/30-199/53/u<=2.95", 7.05 },
{ "SL:NR2R:0/30-199/53/u<=3.1", 7.17 },
{ "SL:NR2R:0/30-199/53/v<=0.1", 8.34 },
{ "SL:NR2R:0/30-199/53/v<=0.5", 6.87 },
{ "SL:NR2R:0/30-199/53/v<=1", 6.54 },
{ "SL:NR2R:0/30-199/53/v<=1.3", 6.55 },
{ "SL:NR2R:0/30-199/53/v<=1.5", 6.7 },
{ "SL:NR2R:0/30-199/53/v<=1.64", 7.36 },
{ "SL:NR2R:0/30-199/53/v<=1.8", 6.79 },
{ "SL:NR2R:0/30-199/53/v<=1e-06", 8.36 },
{ "SL:NR2R:0/30-199/53/v<=2.1", 6.55 },
{ "SL:NR2R:0/30-199/53/v<=2.6", 6.47 },
{ "SL:NR2R:0/30-199/53/v<=2.95", 6.58 },
{ "SL:NR2R:0/30-199/53/v<=3.1", 6.92 },
{ "SL:NR2R:0/30-199/53/v<=3.141", 7.33 },
{ "SL:NR2R:0/30-199/53/v>3.141", 7.2 },
{ "SL:NR2R:0/4/53/t<=0.1", 7.32 },
{ "SL:NR2R:0/4/53/t<=0.5", 7.33 },
{ "SL:NR2R:0/4/53/t<=1", 7.18 },
{ "SL:NR2R:0/4/53/t<=1.3", 7.61 },
{ "SL:NR2R:0/4/53/t<=1.5", 8.11 },
{ "SL:NR2R:0/4/53/t<=1.64", 8.31 },
{ "SL:NR2R:0/4/53/t<=1.8", 8.44 },
{ "SL:NR2R:0/4/53/t<=1e-06", 7.32 },
{ "SL:NR2R:0/4/53/t<=2.1", 10.4 },
{ "SL:NR2R:0/4/53/t<=2.6", 17.8 },
{ "SL:NR2R:0/4/53/t<=2.95", 39.5 },
{ "SL:NR2R:0/4/53/t<=3.1", 57.7 },
{ "SL:NR2R:0/4/53/t<=3.141", 66.8 },
{ "SL:NR2R:0/4/53/t>3.141", 65.1 },
{ "SL:NR2R:0/4/53/u<=0.1", 7.32 },
{ "SL:NR2R:0/4/53/u<=0.5", 6.69 },
{ "SL:NR2R:0/4/53/u<=1", 6.27 },
{ "SL:NR2R:0/4/53/u<=1.3", 6.54 },
{ "SL:NR2R:0/4/53/u<=1.5", 6.69 },
{ "SL:NR2R:0/4/53/u<=1.64", 6.77 },
{ "SL:NR2R:0/4/53/u<=1.8", 6.9 },
{ "SL:NR2R:0/4/53/u<=1e-06", 7.32 },
{ "SL:NR2R:0/4/53/u<=2.1", 7.31 },
{ "SL:NR2R:0/4/53/u<=2.6", 13.6 },
{ "SL:NR2R:0/4/53/u<=2.95", 36.2 },
{ "SL:NR2R:0/4/53/u<=3.1", 53 },
{ "SL:NR2R:0/4/53/v<=0.1", 7.32 },
{ "SL:NR2R:0/4/53/v<=0.5", 6.81 },
{ "SL:NR2R:0/4/53/v<=1", 6.5 },
{ "SL:NR2R:0/4/53/v<=1.3", 6.52 },
{ "SL:NR2R:0/4/53/v<=1.5", 6.53 },
{ "SL:NR2R:0/4/53/v<=1.64", 6.53 },
{ "SL:NR2R:0/4/53/v<=1.8", 6.58 },
{ "SL:NR2R:0/4/53/v<=1e-06", 7.32 },
{ "SL:NR2R:0/4/53/v<=2.1", 6.78 },
{ "SL:NR2R:0/4/53/v<=2.6", 8.16 },
{ "SL:NR2R:0/4/53/v<=2.95", 21.9 },
{ "SL:NR2R:0/4/53/v<=3.1", 41.3 },
{ "SL:NR2R:0/4/53/v<=3.141", 63.2 },
{ "SL:NR2R:0/4/53/v>3.141", 67.5 },
{ "SL:NR2R:0/5/53/t<=0.1", 7.13 },
{ "SL:NR2R:0/5/53/t<=0.5", 7.24 },
{ "SL:NR2R:0/5/53/t<=1", 7.25 },
{ "SL:NR2R:0/5/53/t<=1.3", 7.63 },
{ "SL:NR2R:0/5/53/t<=1.5", 8.58 },
{ "SL:NR2R:0/5/53/t<=1.64", 8.73 },
{ "SL:NR2R:0/5/53/t<=1.8", 8.43 },
{ "SL:NR2R:0/5/53/t<=1e-06", 7.12 },
{ "SL:NR2R:0/5/53/t<=2.1", 8.54 },
{ "SL:NR2R:0/5/53/t<=2.6", 9.17 },
{ "SL:NR2R:0/5/53/t<=2.95", 15.5 },
{ "SL:NR2R:0/5/53/t<=3.1", 16.5 },
{ "SL:NR2R:0/5/53/t<=3.141", 17.4 },
{ "SL:NR2R:0/5/53/t>3.141", 16.9 },
{ "SL:NR2R:0/5/53/u<=0.1", 6.35 },
{ "SL:NR2R:0/5/53/u<=0.5", 6.23 },
{ "SL:NR2R:0/5/53/u<=1", 6.44 },
{ "SL:NR2R:0/5/53/u<=1.3", 7.03 },
{ "SL:NR2R:0/5/53/u<=1.5", 8.18 },
{ "SL:NR2R:0/5/53/u<=1.64", 8.25 },
{ "SL:NR2R:0/5/53/u<=1.8", 7.42 },
{ "SL:NR2R:0/5/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/5/53/u<=2.1", 7.53 },
{ "SL:NR2R:0/5/53/u<=2.6", 7.77 },
{ "SL:NR2R:0/5/53/u<=2.95", 10.7 },
{ "SL:NR2R:0/5/53/u<=3.1", 12.8 },
{ "SL:NR2R:0/5/53/v<=0.1", 6.37 },
{ "SL:NR2R:0/5/53/v<=0.5", 6.41 },
{ "SL:NR2R:0/5/53/v<=1", 6.41 },
{ "SL:NR2R:0/5/53/v<=1.3", 6.66 },
{ "SL:NR2R:0/5/53/v<=1.5", 7.86 },
{ "SL:NR2R:0/5/53/v<=1.64", 8.13 },
{ "SL:NR2R:0/5/53/v<=1.8", 7.45 },
{ "SL:NR2R:0/5/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/5/53/v<=2.1", 6.89 },
{ "SL:NR2R:0/5/53/v<=2.6", 6.92 },
{ "SL:NR2R:0/5/53/v<=2.95", 7.53 },
{ "SL:NR2R:0/5/53/v<=3.1", 7.69 },
{ "SL:NR2R:0/5/53/v<=3.141", 7.97 },
{ "SL:NR2R:0/5/53/v>3.141", 8.07 },
{ "SL:NR2R:0/6/53/t<=0.1", 7.85 },
{ "SL:NR2R:0/6/53/t<=0.5", 7.84 },
{ "SL:NR2R:0/6/53/t<=1", 7.71 },
{ "SL:NR2R:0/6/53/t<=1.3", 7.7 },
{ "SL:NR2R:0/6/53/t<=1.5", 7.9 },
{ "SL:NR2R:0/6/53/t<=1.64", 8.27 },
{ "SL:NR2R:0/6/53/t<=1.8", 8.2 },
{ "SL:NR2R:0/6/53/t<=1e-06", 7.85 },
{ "SL:NR2R:0/6/53/t<=2.1", 8.28 },
{ "SL:NR2R:0/6/53/t<=2.6", 8.64 },
{ "SL:NR2R:0/6/53/t<=2.95", 14 },
{ "SL:NR2R:0/6/53/t<=3.1", 24.1 },
{ "SL:NR2R:0/6/53/t<=3.141", 28.8 },
{ "SL:NR2R:0/6/53/t>3.141", 33 },
{ "SL:NR2R:0/6/53/u<=0.1", 7.85 },
{ "SL:NR2R:0/6/53/u<=0.5", 7.09 },
{ "SL:NR2R:0/6/53/u<=1", 6.49 },
{ "SL:NR2R:0/6/53/u<=1.3", 6.51 },
{ "SL:NR2R:0/6/53/u<=1.5", 6.65 },
{ "SL:NR2R:0/6/53/u<=1.64", 6.84 },
{ "SL:NR2R:0/6/53/u<=1.8", 6.87 },
{ "SL:NR2R:0/6/53/u<=1e-06", 7.85 },
{ "SL:NR2R:0/6/53/u<=2.1", 7.07 },
{ "SL:NR2R:0/6/53/u<=2.6", 7.9 },
{ "SL:NR2R:0/6/53/u<=2.95", 12.5 },
{ "SL:NR2R:0/6/53/u<=3.1", 19.5 },
{ "SL:NR2R:0/6/53/v<=0.1", 7.84 },
{ "SL:NR2R:0/6/53/v<=0.5", 6.94 },
{ "SL:NR2R:0/6/53/v<=1", 6.42 },
{ "SL:NR2R:0/6/53/v<=1.3", 6.42 },
{ "SL:NR2R:0/6/53/v<=1.5", 6.48 },
{ "SL:NR2R:0/6/53/v<=1.64", 6.54 },
{ "SL:NR2R:0/6/53/v<=1.8", 6.6 },
{ "SL:NR2R:0/6/53/v<=1e-06", 7.85 },
{ "SL:NR2R:0/6/53/v<=2.1", 6.65 },
{ "SL:NR2R:0/6/53/v<=2.6", 6.94 },
{ "SL:NR2R:0/6/53/v<=2.95", 8.39 },
{ "SL:NR2R:0/6/53/v<=3.1", 17.4 },
{ "SL:NR2R:0/6/53/v<=3.141", 27.5 },
{ "SL:NR2R:0/6/53/v>3.141", 33 },
{ "SL:NR2R:0/7/53/t<=0.1", 7.36 },
{ "SL:NR2R:0/7/53/t<=0.5", 7.4 },
{ "SL:NR2R:0/7/53/t<=1", 7.48 },
{ "SL:NR2R:0/7/53/t<=1.3", 8.18 },
{ "SL:NR2R:0/7/53/t<=1.5", 8.92 },
{ "SL:NR2R:0/7/53/t<=1.64", 10.8 },
{ "SL:NR2R:0/7/53/t<=1.8", 9.93 },
{ "SL:NR2R:0/7/53/t<=1e-06", 7.37 },
{ "SL:NR2R:0/7/53/t<=2.1", 9.13 },
{ "SL:NR2R:0/7/53/t<=2.6", 8.84 },
{ "SL:NR2R:0/7/53/t<=2.95", 8.89 },
{ "SL:NR2R:0/7/53/t<=3.1", 9.93 },
{ "SL:NR2R:0/7/53/t<=3.141", 11 },
{ "SL:NR2R:0/7/53/t>3.141", 11.6 },
{ "SL:NR2R:0/7/53/u<=0.1", 6.36 },
{ "SL:NR2R:0/7/53/u<=0.5", 6.13 },
{ "SL:NR2R:0/7/53/u<=1", 6.5 },
{ "SL:NR2R:0/7/53/u<=1.3", 7.17 },
{ "SL:NR2R:0/7/53/u<=1.5", 8.44 },
{ "SL:NR2R:0/7/53/u<=1.64", 10.2 },
{ "SL:NR2R:0/7/53/u<=1.8", 8.51 },
{ "SL:NR2R:0/7/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/7/53/u<=2.1", 8.02 },
{ "SL:NR2R:0/7/53/u<=2.6", 7.59 },
{ "SL:NR2R:0/7/53/u<=2.95", 8.09 },
{ "SL:NR2R:0/7/53/u<=3.1", 8.38 },
{ "SL:NR2R:0/7/53/v<=0.1", 6.37 },
{ "SL:NR2R:0/7/53/v<=0.5", 6.43 },
{ "SL:NR2R:0/7/53/v<=1", 6.64 },
{ "SL:NR2R:0/7/53/v<=1.3", 7.09 },
{ "SL:NR2R:0/7/53/v<=1.5", 8.21 },
{ "SL:NR2R:0/7/53/v<=1.64", 10.1 },
{ "SL:NR2R:0/7/53/v<=1.8", 7.92 },
{ "SL:NR2R:0/7/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/7/53/v<=2.1", 7.2 },
{ "SL:NR2R:0/7/53/v<=2.6", 6.93 },
{ "SL:NR2R:0/7/53/v<=2.95", 6.86 },
{ "SL:NR2R:0/7/53/v<=3.1", 7.04 },
{ "SL:NR2R:0/7/53/v<=3.141", 7.13 },
{ "SL:NR2R:0/7/53/v>3.141", 7.3 },
{ "SL:NR2R:0/8/53/t<=0.1", 7.18 },
{ "SL:NR2R:0/8/53/t<=0.5", 6.73 },
{ "SL:NR2R:0/8/53/t<=1", 7 },
{ "SL:NR2R:0/8/53/t<=1.3", 7.15 },
{ "SL:NR2R:0/8/53/t<=1.5", 7.62 },
{ "SL:NR2R:0/8/53/t<=1.64", 8.04 },
{ "SL:NR2R:0/8/53/t<=1.8", 7.93 },
{ "SL:NR2R:0/8/53/t<=1e-06", 7.18 },
{ "SL:NR2R:0/8/53/t<=2.1", 8.29 },
{ "SL:NR2R:0/8/53/t<=2.6", 10.4 },
{ "SL:NR2R:0/8/53/t<=2.95", 17.8 },
{ "SL:NR2R:0/8/53/t<=3.1", 27.3 },
{ "SL:NR2R:0/8/53/t<=3.141", 30.4 },
{ "SL:NR2R:0/8/53/t>3.141", 32.5 },
{ "SL:NR2R:0/8/53/u<=0.1", 7.17 },
{ "SL:NR2R:0/8/53/u<=0.5", 6.4 },
{ "SL:NR2R:0/8/53/u<=1", 6.25 },
{ "SL:NR2R:0/8/53/u<=1.3", 6.32 },
{ "SL:NR2R:0/8/53/u<=1.5", 6.46 },
{ "SL:NR2R:0/8/53/u<=1.64", 6.64 },
{ "SL:NR2R:0/8/53/u<=1.8", 6.75 },
{ "SL:NR2R:0/8/53/u<=1e-06", 7.18 },
{ "SL:NR2R:0/8/53/u<=2.1", 7.69 },
{ "SL:NR2R:0/8/53/u<=2.6", 9.43 },
{ "SL:NR2R:0/8/53/u<=2.95", 16.3 },
{ "SL:NR2R:0/8/53/u<=3.1", 25.6 },
{ "SL:NR2R:0/8/53/v<=0.1", 7.17 },
{ "SL:NR2R:0/8/53/v<=0.5", 6.38 },
{ "SL:NR2R:0/8/53/v<=1", 6.48 },
{ "SL:NR2R:0/8/53/v<=1.3", 6.5 },
{ "SL:NR2R:0/8/53/v<=1.5", 6.57 },
{ "SL:NR2R:0/8/53/v<=1.64", 6.69 },
{ "SL:NR2R:0/8/53/v<=1.8", 6.73 },
{ "SL:NR2R:0/8/53/v<=1e-06", 7.18 },
{ "SL:NR2R:0/8/53/v<=2.1", 6.89 },
{ "SL:NR2R:0/8/53/v<=2.6", 7.45 },
{ "SL:NR2R:0/8/53/v<=2.95", 9.19 },
{ "SL:NR2R:0/8/53/v<=3.1", 18.9 },
{ "SL:NR2R:0/8/53/v<=3.141", 31 },
{ "SL:NR2R:0/8/53/v>3.141", 35.2 },
{ "SL:NR2R:0/9/53/t<=0.1", 7.05 },
{ "SL:NR2R:0/9/53/t<=0.5", 7.02 },
{ "SL:NR2R:0/9/53/t<=1", 7.04 },
{ "SL:NR2R:0/9/53/t<=1.3", 7.4 },
{ "SL:NR2R:0/9/53/t<=1.5", 8.29 },
{ "SL:NR2R:0/9/53/t<=1.64", 8.62 },
{ "SL:NR2R:0/9/53/t<=1.8", 8.47 },
{ "SL:NR2R:0/9/53/t<=1e-06", 6.96 },
{ "SL:NR2R:0/9/53/t<=2.1", 8.25 },
{ "SL:NR2R:0/9/53/t<=2.6", 7.94 },
{ "SL:NR2R:0/9/53/t<=2.95", 7.98 },
{ "SL:NR2R:0/9/53/t<=3.1", 8.21 },
{ "SL:NR2R:0/9/53/t<=3.141", 8.96 },
{ "SL:NR2R:0/9/53/t>3.141", 10 },
{ "SL:NR2R:0/9/53/u<=0.1", 6.35 },
{ "SL:NR2R:0/9/53/u<=0.5", 6.11 },
{ "SL:NR2R:0/9/53/u<=1", 6.32 },
{ "SL:NR2R:0/9/53/u<=1.3", 6.79 },
{ "SL:NR2R:0/9/53/u<=1.5", 7.82 },
{ "SL:NR2R:0/9/53/u<=1.64", 8.81 },
{ "SL:NR2R:0/9/53/u<=1.8", 7.89 },
{ "SL:NR2R:0/9/53/u<=1e-06", 6.35 },
{ "SL:NR2R:0/9/53/u<=2.1", 7.53 },
{ "SL:NR2R:0/9/53/u<=2.6", 7.45 },
{ "SL:NR2R:0/9/53/u<=2.95", 8.08 },
{ "SL:NR2R:0/9/53/u<=3.1", 8.36 },
{ "SL:NR2R:0/9/53/v<=0.1", 6.37 },
{ "SL:NR2R:0/9/53/v<=0.5", 6.39 },
{ "SL:NR2R:0/9/53/v<=1", 6.51 },
{ "SL:NR2R:0/9/53/v<=1.3", 6.74 },
{ "SL:NR2R:0/9/53/v<=1.5", 7.29 },
{ "SL:NR2R:0/9/53/v<=1.64", 8.45 },
{ "SL:NR2R:0/9/53/v<=1.8", 7.5 },
{ "SL:NR2R:0/9/53/v<=1e-06", 6.35 },
{ "SL:NR2R:0/9/53/v<=2.1", 6.91 },
{ "SL:NR2R:0/9/53/v<=2.6", 6.85 },
{ "SL:NR2R:0/9/53/v<=2.95", 6.84 },
{ "SL:NR2R:0/9/53/v<=3.1", 6.82 },
{ "SL:NR2R:0/9/53/v<=3.141", 6.96 },
{ "SL:NR2R:0/9/53/v>3.141", 7.06 },
{ "STACK|C++_Cl(n,double)|n<=-10000", 792 },
{ "STACK|C++_Cl(n,double)|n<=200", 1.06e+03 },
{ "STACK|C++_Cl(n,double)|n<=2000", 1.06e+03 },
{ "STACK|C++_Cl(n,double)|n<=30", 1.18e+03 },
{ "STACK|C++_Cl(n,double)|n<=6", 1.03e+03 },
{ "STACK|C++_Cl(n,double)|n>2000", 1.06e+03 },
{ "STACK|C++_Cl(n,double)|n>=-20", 792 },
{ "STACK|C++_Cl(n,double)|n>=-200", 792 },
{ "STACK|C++_Cl(n,double)|n>=-500", 1.06e+03 },
{ "STACK|C++_Cl(n,double)|n>=-60", 792 },
{ "STACK|C++_Cl1(double)|", 420 },
{ "STACK|C++_Cl2(double)|", 400 },
{ "STACK|C++_Cl2(long_double)|", 1.16e+03 },
{ "STACK|C++_Cl3(double)|", 360 },
{ "STACK|C++_Cl3(long_double)|", 1.12e+03 },
{ "STACK|C++_Cl4(double)|", 400 },
{ "STACK|C++_Cl4(long_double)|", 1.16e+03 },
{ "STACK|C++_Cl5(double)|", 360 },
{ "STACK|C++_Cl5(long_double)|", 1.08e+03 },
{ "STACK|C++_Cl6(double)|", 400 },
{ "STACK|C++_Cl6(long_double)|", 1.08e+03 },
{ "STACK|C++_Li(n,complex<double>)|n<=-10000", 2.26e+03 },
{ "STACK|C++_Li(n,complex<double>)|n<=200", 1.46e+03 },
{ "STACK|C++_Li(n,complex<double>)|n<=2000", 1.46e+03 },
{ "STACK|C++_Li(n,complex<double>)|n<=30", 1.17e+03 },
{ "STACK|C++_Li(n,complex<double>)|n<=6", 6.18e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>-10000", 2.69e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>2000", 1.46e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>=-20", 4.27e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>=-200", 2.14e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>=-2000", 2.24e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>=-500", 2.24e+03 },
{ "STACK|C++_Li(n,complex<double>)|n>=-60", 2.14e+03 },
{ "STACK|C++_Li2(complex<double>)|", 5.38e+03 },
{ "STACK|C++_Li2(complex<float>)|", 1.1e+03 },
{ "STACK|C++_Li2(complex<long_double>)|", 6.54e+03 },
{ "STACK|C++_Li2(double)|", 340 },
{ "STACK|C++_Li2(float)|", 300 },
{ "STACK|C++_Li2(long_double)|", 1.44e+03 },
{ "STACK|C++_Li3(complex<double>)|", 5.34e+03 },
{ "STACK|C++_Li3(complex<long_double>)|", 7.3e+03 },
{ "STACK|C++_Li3(double)|", 420 },
{ "STACK|C++_Li4(complex<double>)|", 5.46e+03 },
{ "STACK|C++_Li4(complex<long_double>)|", 7.26e+03 },
{ "STACK|C++_Li4(double)|", 340 },
{ "STACK|C++_Li5(complex<double>)|", 5.46e+03 },
{ "STACK|C++_Li5(complex<long_double>)|", 7.18e+03 },
{ "STACK|C++_Li6(complex<double>)|", 5.42e+03 },
{ "STACK|C++_Li6(complex<long_double>)|", 7.18e+03 },
{ "STACK|C++_Sl(n,double)|n<=-10000", 696 },
{ "STACK|C++_Sl(n,double)|n<=200", 960 },
{ "STACK|C++_Sl(n,double)|n<=2000", 960 },
{ "STACK|C++_Sl(n,double)|n<=30", 960 },
{ "STACK|C++_Sl(n,double)|n<=6", 768 },
{ "STACK|C++_Sl(n,double)|n>2000", 960 },
{ "STACK|C++_Sl(n,double)|n>=-20", 696 },
{ "STACK|C++_Sl(n,double)|n>=-200", 696 },
{ "STACK|C++_Sl(n,double)|n>=-500", 928 },
{ "STACK|C++_Sl(n,double)|n>=-60", 696 },
{ "STACK|C++_harmonic(n)|n<=-10000", 456 },
{ "STACK|C++_harmonic(n)|n<=200", 456 },
{ "STACK|C++_harmonic(n)|n<=2000", 456 },
{ "STACK|C++_harmonic(n)|n<=30", 456 },
{ "STACK|C++_harmonic(n)|n<=6", 456 },
{ "STACK|C++_harmonic(n)|n>2000", 456 },
{ "STACK|C++_harmonic(n)|n>=-20", 456 },
{ "STACK|C++_harmonic(n)|n>=-200", 456 },
{ "STACK|C++_harmonic(n)|n>=-500", 608 },
{ "STACK|C++_harmonic(n)|n>=-60", 456 },
{ "STACK|C++_inv_fac(n)|n<=-10000", 408 },
{ "STACK|C++_inv_fac(n)|n<=200", 408 },
{ "STACK|C++_inv_fac(n)|n<=2000", 408 },
{ "STACK|C++_inv_fac(n)|n<=30", 408 },
{ "STACK|C++_inv_fac(n)|n<=6", 408 },
{ "STACK|C++_inv_fac(n)|n>2000", 408 },
{ "STACK|C++_inv_fac(n)|n>=-20", 408 },
{ "STACK|C++_inv_fac(n)|n>=-200", 408 },
{ "STACK|C++_inv_fac(n)|n>=-500", 544 },
{ "STACK|C++_inv_fac(n)|n>=-60", 408 },
{ "STACK|C++_log1p(complex<double>)|", 4.66e+03 },
{ "STACK|C++_log1p(complex<float>)|", 540 },
{ "STACK|C++_log1p(complex<long_double>)|", 5.22e+03 },
{ "STACK|C++_neg_eta(n)|n<=-10000", 408 },
{ "STACK|C++_neg_eta(n)|n<=200", 408 },
{ "STACK|C++_neg_eta(n)|n<=2000", 408 },
{ "STACK|C++_neg_eta(n)|n<=30", 408 },
{ "STACK|C++_neg_eta(n)|n<=6", 408 },
{ "STACK|C++_neg_eta(n)|n>2000", 408 },
{ "STACK|C++_neg_eta(n)|n>=-20", 408 },
{ "STACK|C++_neg_eta(n)|n>=-200", 408 },
{ "STACK|C++_neg_eta(n)|n>=-500", 544 },
{ "STACK|C++_neg_eta(n)|n>=-60", 408 },
{ "STACK|C++_pos_log(complex<double>)|", 4.58e+03 },
{ "STACK|C++_pos_log(complex<float>)|", 500 },
{ "STACK|C++_pos_log(complex<long_double>)|", 5.02e+03 },
{ "STACK|C++_zeta(n)|n<=-10000", 408 },
{ "STACK|C++_zeta(n)|n<=200", 552 },
{ "STACK|C++_zeta(n)|n<=2000", 552 },
{ "STACK|C++_zeta(n)|n<=30", 408 },
{ "STACK|C++_zeta(n)|n<=6", 408 },
{ "STACK|C++_zeta(n)|n>2000", 552 },
{ "STACK|C++_zeta(n)|n>=-20", 408 },
{ "STACK|C++_zeta(n)|n>=-200", 408 },
{ "STACK|C++_zeta(n)|n>=-500", 544 },
{ "STACK|C++_zeta(n)|n>=-60", 408 },
{ "STACK|C_cl2l|", 1.16e+03 },
{ "STACK|C_cl2|", 400 },
{ "STACK|C_cl3l|", 1.12e+03 },
{ "STACK|C_cl3|", 360 },
{ "STACK|C_cl4l|", 1.16e+03 },
{ "STACK|C_cl4|", 400 },
{ "STACK|C_cl5l|", 1.08e+03 },
{ "STACK|C_cl5|", 360 },
{ "STACK|C_cl6l|", 1.08e+03 },
{ "STACK|C_cl6|", 400 },
{ "STACK|C_cli2f|", 1.06e+03 },
{ "STACK|C_cli2l|", 6.38e+03 },
{ "STACK|C_cli2|", 5.14e+03 },
{ "STACK|C_cli3l|", 7.1e+03 },
{ "STACK|C_cli3|", 5.18e+03 },
{ "STACK|C_cli4l|", 7.14e+03 },
{ "STACK|C_cli4|", 5.22e+03 },
{ "STACK|C_cli5l|", 7.02e+03 },
{ "STACK|C_cli5|", 5.18e+03 },
{ "STACK|C_cli6l|", 7.14e+03 },
{ "STACK|C_cli6|", 5.22e+03 },
{ "STACK|C_clog1pl|", 5.26e+03 },
{ "STACK|C_clog1p|", 4.74e+03 },
{ "STACK|C_li2f|", 300 },
{ "STACK|C_li2l|", 1.44e+03 },
{ "STACK|C_li2|", 340 },
{ "STACK|C_li3|", 420 },
{ "STACK|C_li4|", 340 },
{ "STACK|C_pos_clogl|", 5.1e+03 },
{ "STACK|C_pos_clog|", 4.66e+03 },
{ "STACK|Fortran_cdli2|", 5.22e+03 },
{ "STACK|Fortran_cdli3|", 5.3e+03 },
{ "STACK|Fortran_cdli4|", 5.3e+03 },
{ "STACK|Fortran_cdli5|", 5.26e+03 },
{ "STACK|Fortran_cdli6|", 5.26e+03 },
{ "STACK|Fortran_cdlog1p|", 4.78e+03 },
{ "STACK|Fortran_dcl2|", 460 },
{ "STACK|Fortran_dcl3|", 420 },
{ "STACK|Fortran_dcl4|", 460 },
{ "STACK|Fortran_dcl5|", 420 },
{ "STACK|Fortran_dcl6|", 460 },
{ "STACK|Fortran_dli2|", 420 },
{ "STACK|Fortran_dli3|", 660 },
{ "STACK|Fortran_dli4|", 580 },
{ "STACK|Fortran_pos_cdlog|", 4.74e+03 },
{ "STEPS|C++_Cl(n,double)|n<=-10000", 9 },
{ "STEPS|C++_Cl(n,double)|n<=200", 60 },
{ "STEPS|C++_Cl(n,double)|n<=2000", 54 },
{ "STEPS|C++_Cl(n,double)|n<=30", 9.85e+03 },
{ "STEPS|C++_Cl(n,double)|n<=6", 51 },
{ "STEPS|C++_Cl(n,double)|n>2000", 54 },
{ "STEPS|C++_Cl(n,double)|n>=-20", 9 },
{ "STEPS|C++_Cl(n,double)|n>=-200", 9 },
{ "STEPS|C++_Cl(n,double)|n>=-500", 15 },
{ "STEPS|C++_Cl(n,double)|n>=-60", 9 },
{ "STEPS|C++_Cl1(double)|", 30 },
{ "STEPS|C++_Cl2(double)|", 32.5 },
{ "STEPS|C++_Cl2(long_double)|", 30 },
{ "STEPS|C++_Cl3(double)|", 27.5 },
{ "STEPS|C++_Cl3(long_double)|", 27.5 },
{ "STEPS|C++_Cl4(double)|", 32.5 },
{ "STEPS|C++_Cl4(long_double)|", 30 },
{ "STEPS|C++_Cl5(double)|", 27.5 },
{ "STEPS|C++_Cl5(long_double)|", 27.5 },
{ "STEPS|C++_Cl6(double)|", 32.5 },
{ "STEPS|C++_Cl6(long_double)|", 30 },
{ "STEPS|C++_Li(n,complex<double>)|n<=-10000", 2.25e+03 },
{ "STEPS|C++_Li(n,complex<double>)|n<=200", 4.59e+03 },
{ "STEPS|C++_Li(n,complex<double>)|n<=2000", 2.01e+04 },
{ "STEPS|C++_Li(n,complex<double>)|n<=30", 3.18e+04 },
{ "STEPS|C++_Li(n,complex<double>)|n<=6", 120 },
{ "STEPS|C++_Li(n,complex<double>)|n>-10000", 705 },
{ "STEPS|C++_Li(n,complex<double>)|n>2000", 2.56e+04 },
{ "STEPS|C++_Li(n,complex<double>)|n>=-20", 4.4e+03 },
{ "STEPS|C++_Li(n,complex<double>)|n>=-200", 2.22e+04 },
{ "STEPS|C++_Li(n,complex<double>)|n>=-2000", 395 },
{ "STEPS|C++_Li(n,complex<double>)|n>=-500", 4.44e+04 },
{ "STEPS|C++_Li(n,complex<double>)|n>=-60", 2.11e+04 },
{ "STEPS|C++_Li2(complex<double>)|", 75 },
{ "STEPS|C++_Li2(complex<float>)|", 55 },
{ "STEPS|C++_Li2(complex<long_double>)|", 82.5 },
{ "STEPS|C++_Li2(double)|", 30 },
{ "STEPS|C++_Li2(float)|", 30 },
{ "STEPS|C++_Li2(long_double)|", 72.5 },
{ "STEPS|C++_Li3(complex<double>)|", 118 },
{ "STEPS|C++_Li3(complex<long_double>)|", 125 },
{ "STEPS|C++_Li3(double)|", 35 },
{ "STEPS|C++_Li4(complex<double>)|", 118 },
{ "STEPS|C++_Li4(complex<long_double>)|", 122 },
{ "STEPS|C++_Li4(double)|", 30 },
{ "STEPS|C++_Li5(complex<double>)|", 135 },
{ "STEPS|C++_Li5(complex<long_double>)|", 125 },
{ "STEPS|C++_Li6(complex<double>)|", 130 },
{ "STEPS|C++_Li6(complex<long_double>)|", 128 },
{ "STEPS|C++_Sl(n,double)|n<=-10000", 9 },
{ "STEPS|C++_Sl(n,double)|n<=200", 66 },
{ "STEPS|C++_Sl(n,double)|n<=2000", 60 },
{ "STEPS|C++_Sl(n,double)|n<=30", 66 },
{ "STEPS|C++_Sl(n,double)|n<=6", 48 },
{ "STEPS|C++_Sl(n,double)|n>2000", 60 },
{ "STEPS|C++_Sl(n,double)|n>=-20", 9 },
{ "STEPS|C++_Sl(n,double)|n>=-200", 9 },
{ "STEPS|C++_Sl(n,double)|n>=-500", 15 },
{ "STEPS|C++_Sl(n,double)|n>=-60", 9 },
{ "STEPS|C++_harmonic(n)|n<=-10000", 9 },
{ "STEPS|C++_harmonic(n)|n<=200", 15 },
{ "STEPS|C++_harmonic(n)|n<=2000", 15 },
{ "STEPS|C++_harmonic(n)|n<=30", 69 },
{ "STEPS|C++_harmonic(n)|n<=6", 30 },
{ "STEPS|C++_harmonic(n)|n>2000", 15 },
{ "STEPS|C++_harmonic(n)|n>=-20", 9 },
{ "STEPS|C++_harmonic(n)|n>=-200", 9 },
{ "STEPS|C++_harmonic(n)|n>=-500", 15 },
{ "STEPS|C++_harmonic(n)|n>=-60", 9 },
{ "STEPS|C++_inv_fac(n)|n<=-10000", 9 },
{ "STEPS|C++_inv_fac(n)|n<=200", 15 },
{ "STEPS|C++_inv_fac(n)|n<=2000", 12 },
{ "STEPS|C++_inv_fac(n)|n<=30", 15 },
{ "STEPS|C++_inv_fac(n)|n<=6", 15 },
{ "STEPS|C++_inv_fac(n)|n>2000", 12 },
{ "STEPS|C++_inv_fac(n)|n>=-20", 9 },
{ "STEPS|C++_inv_fac(n)|n>=-200", 9 },
{ "STEPS|C++_inv_fac(n)|n>=-500", 15 },
{ "STEPS|C++_inv_fac(n)|n>=-60", 9 },
{ "STEPS|C++_log1p(complex<double>)|", 15 },
{ "STEPS|C++_log1p(complex<float>)|", 15 },
{ "STEPS|C++_log1p(complex<long_double>)|", 15 },
{ "STEPS|C++_neg_eta(n)|n<=-10000", 18 },
{ "STEPS|C++_neg_eta(n)|n<=200", 18 },
{ "STEPS|C++_neg_eta(n)|n<=2000", 15 },
{ "STEPS|C++_neg_eta(n)|n<=30", 18 },
{ "STEPS|C++_neg_eta(n)|n<=6", 18 },
{ "STEPS|C++_neg_eta(n)|n>2000", 15 },
{ "STEPS|C++_neg_eta(n)|n>=-20", 18 },
{ "STEPS|C++_neg_eta(n)|n>=-200", 18 },
{ "STEPS|C++_neg_eta(n)|n>=-500", 24 },
{ "STEPS|C++_neg_eta(n)|n>=-60", 18 },
{ "STEPS|C++_pos_log(complex<double>)|", 10 },
{ "STEPS|C++_pos_log(complex<float>)|", 10 },
{ "STEPS|C++_pos_log(complex<long_double>)|", 10 },
{ "STEPS|C++_zeta(n)|n<=-10000", 18 },
{ "STEPS|C++_zeta(n)|n<=200", 21 },
{ "STEPS|C++_zeta(n)|n<=2000", 21 },
{ "STEPS|C++_zeta(n)|n<=30", 21 },
{ "STEPS|C++_zeta(n)|n<=6", 21 },
{ "STEPS|C++_zeta(n)|n>2000", 21 },
{ "STEPS|C++_zeta(n)|n>=-20", 18 },
{ "STEPS|C++_zeta(n)|n>=-200", 18 },
{ "STEPS|C++_zeta(n)|n>=-500", 24 },
{ "STEPS|C++_zeta(n)|n>=-60", 18 },
{ "STEPS|C_cl2l|", 30 },
{ "STEPS|C_cl2|", 32.5 },
{ "STEPS|C_cl3l|", 27.5 },
{ "STEPS|C_cl3|", 27.5 },
{ "STEPS|C_cl4l|", 30 },
{ "STEPS|C_cl4|", 32.5 },
{ "STEPS|C_cl5l|", 27.5 },
{ "STEPS|C_cl5|", 27.5 },
{ "STEPS|C_cl6l|", 30 },
{ "STEPS|C_cl6|", 32.5 },
{ "STEPS|C_cli2f|", 60 },
{ "STEPS|C_cli2l|", 122 },
{ "STEPS|C_cli2|", 85 },
{ "STEPS|C_cli3l|", 230 },
{ "STEPS|C_cli3|", 115 },
{ "STEPS|C_cli4l|", 230 },
{ "STEPS|C_cli4|", 118 },
{ "STEPS|C_cli5l|", 225 },
{ "STEPS|C_cli5|", 132 },
{ "STEPS|C_cli6l|", 235 },
{ "STEPS|C_cli6|", 130 },
{ "STEPS|C_clog1pl|", 17.5 },
{ "STEPS|C_clog1p|", 17.5 },
{ "STEPS|C_li2f|", 30 },
{ "STEPS|C_li2l|", 77.5 },
{ "STEPS|C_li2|", 30 },
{ "STEPS|C_li3|", 35 },
{ "STEPS|C_li4|", 30 },
{ "STEPS|C_pos_clogl|", 12.5 },
{ "STEPS|C_pos_clog|", 12.5 },
{ "STEPS|Fortran_cdli2|", 42.5 },
{ "STEPS|Fortran_cdli3|", 55 },
{ "STEPS|Fortran_cdli4|", 55 },
{ "STEPS|Fortran_cdli5|", 62.5 },
{ "STEPS|Fortran_cdli6|", 62.5 },
{ "STEPS|Fortran_cdlog1p|", 17.5 },
{ "STEPS|Fortran_dcl2|", 32.5 },
{ "STEPS|Fortran_dcl3|", 30 },
{ "STEPS|Fortran_dcl4|", 32.5 },
{ "STEPS|Fortran_dcl5|", 30 },
{ "STEPS|Fortran_dcl6|", 32.5 },
{ "STEPS|Fortran_dli2|", 32.5 },
{ "STEPS|Fortran_dli3|", 37.5 },
{ "STEPS|Fortran_dli4|", 35 },
{ "STEPS|Fortran_pos_cdlog|", 12.5 },
{ "TRI3|LI:C2C:3//53", 8.22 },
{ "TRI3|LI:C2C:3//53/axis", 8.22 },
{ "TRI3|LI:C2C:3//64", 6.72 },
{ "TRI3|LI:C2C:3//64/axis", 12.7 },
{ "TRI3|LI:R2R:3//53", 6.84 },
{ "TRIP|LI:C2C:2//24", 11.1 },
{ "TRIP|LI:C2C:2//24/axis", 15.7 },
{ "TRIP|LI:C2C:2//53", 8.46 },
{ "TRIP|LI:C2C:2//53/axis", 15.5 },
{ "TRIP|LI:C2C:2//64", 8.45 },
{ "TRIP|LI:C2C:2//64/axis", 14.4 },
{ "TRIP|LI:C2C:3//53", 9.75 },
{ "TRIP|LI:C2C:3//53/axis", 15.8 },
{ "TRIP|LI:C2C:3//64", 8.79 },
{ "TRIP|LI:C2C:3//64/axis", 14.8 },
{ "TRIP|LI:C2C:4//53", 12.3 },
{ "TRIP|LI:C2C:4//53/axis", 123 },
{ "TRIP|LI:C2C:4//64", 16.2 },
{ "TRIP|LI:C2C:4//64/axis", 21.6 },
{ "TRIP|LI:C2C:5//53", 15.1 },
{ "TRIP|LI:C2C:5//53/axis", 24.2 },
{ "TRIP|LI:C2C:5//64", 16.3 },
{ "TRIP|LI:C2C:5//64/axis", 21.8 },
{ "TRIP|LI:C2C:6//53", 17.6 },
{ "TRIP|LI:C2C:6//53/axis", 28.1 },
{ "TRIP|LI:C2C:6//64", 18.9 },
{ "TRIP|LI:C2C:6//64/axis", 25.3 },
{ "TRIP|LI:NC2C:0/-1/53", 8.33 },
{ "TRIP|LI:NC2C:0/-1/53/axis", 14.3 },
{ "TRIP|LI:NC2C:0/0/53", 13.1 },
{ "TRIP|LI:NC2C:0/0/53/axis", 13.1 },
{ "TRIP|LI:NC2C:0/1/53", 13.1 },
{ "TRIP|LI:NC2C:0/1/53/axis", 12.3 },
{ "TRIP|LI:NC2C:0/2/53", 14.5 },
{ "TRIP|LI:NC2C:0/2/53/axis", 15.5 },
{ "TRIP|LI:NC2C:0/200+/53", 8.57 },
{ "TRIP|LI:NC2C:0/200+/53/axis", 14.6 },
{ "TRIP|LI:NC2C:0/3/53", 15.7 },
{ "TRIP|LI:NC2C:0/3/53/axis", 15.8 },
{ "TRIP|LI:NC2C:0/30-199/53", 13.9 },
{ "TRIP|LI:NC2C:0/30-199/53/axis", 18.5 },
{ "TRIP|LI:NC2C:0/4/53", 19.8 },
{ "TRIP|LI:NC2C:0/4/53/axis", 123 },
{ "TRIP|LI:NC2C:0/5/53", 24.2 },
{ "TRIP|LI:NC2C:0/5/53/axis", 24.2 },
{ "TRIP|LI:NC2C:0/6/53", 28.1 },
{ "TRIP|LI:NC2C:0/6/53/axis", 28.1 },
{ "TRIP|LI:NC2C:0/7-29/53", 15.3 },
{ "TRIP|LI:NC2C:0/7-29/53/axis", 20.4 },
{ "ZETA:N2R:0/large", 5.01 },
{ "ZETA:N2R:0/neg", 7.23 },
{ "ZETA:N2R:0/small", 7.14 },
};
static const double kdefault = 64; }
