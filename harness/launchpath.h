extern char launch_sock[], launch_seatd[];
