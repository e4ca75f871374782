double floor(double x); double ceil(double x); double sqrt(double x); double log(double x); double fabs(double x); double pow(double a,double b);
