extern char start_sock_path[];
