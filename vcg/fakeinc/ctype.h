int isdigit(int c); int isspace(int c);
