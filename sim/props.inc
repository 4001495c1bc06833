P(C01, "VECT save and load")
P(C02, "damaged or failing VECT streams")
P(C03, "curve edit histories")
P(C04, "diagram text round trip")
P(C05, "damaged or failing diagram streams")
P(C06, "diagram store histories")
P(C08, "diagram store files")
P(C09, "HOMFLY time limit")
P(C10, "invariants of diagrams")
P(C13, "topology of space polygons")
P(C20, "diagram moves")
P(C11, "random polygon samplers")
P(C12, "reproducible sampling")
P(C14, "Markov chain integration")
P(C21, "buffered error estimates")
P(C18, "diagram store tools")
P(C16, "struts, minimum radius, thickness")
P(C15, "nearest points")
P(C23, "strut files")
P(C22,"curve tools")
P(C24,"expansion and classification tools")
P(C25,"curves in n dimensions")
P(C26,"splines and symmetry groups")
P(C19,"Judy arrays")
P(C27,"whether two diagrams are the same")
P(C28,"random planar maps")
